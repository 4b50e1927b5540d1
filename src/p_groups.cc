// Group mode (c/experimental/groups.h): parallel encoding and decoding.
#include <atomic>
#include <thread>
#include "pool.h"
#include <c/experimental/groups.h>

// Executors: the tasks of one call may run in any order, on any thread.
struct Shuffled {
  Rng* r; uint64_t tasks = 0, calls = 0;
  B::Executor Get() { return [this](const B::Runnable& f, size_t n) { std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = i; for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r->U((uint32_t)i)]); calls++; tasks += n; for (size_t i : o) f(i); }; }
};
struct Threads {  // one thread per slice, started together
  int n; uint64_t seed; uint64_t tasks = 0; std::atomic<int> inside{0}, maxin{0};
  B::Executor Get() { return [this](const B::Runnable& f, size_t k) { tasks += k; std::atomic<size_t> next{0}; std::atomic<int> ready{0}; std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ready++; while (ready.load() < n) std::this_thread::yield(); uint64_t x = seed + i; while (true) { size_t q = next++; if (q >= k) break; int a = ++inside, m = maxin.load(); while (a > m && !maxin.compare_exchange_weak(m, a)) {} x = Mix(x); if ((x & 7) == 0) for (volatile int z = 0; z < (int)(x >> 8 & 2047); z = z + 1) {} f(q); --inside; } }); for (auto& e : t) e.join(); }; }
};
static std::string GEnc(const B::JPEGData& d, size_t ac, size_t dc, B::Executor* e, bool* ok) {
  size_t len = B::GetMaximumBrunsliEncodedSize(d) + 65536; std::string o(len, 0); *ok = B::EncodeGroups(d, (uint8_t*)&o[0], &len, ac, dc, e); o.resize(*ok ? std::min(len, o.size()) : 0); return o;
}
static Jpg GJpg(Rng& r, bool tsan, bool legal) {
  Jpg j; GenOptions o; o.groups_friendly = true; o.max_blocks = tsan ? 60 : r.P(0.3) ? 3000 : 400; o.legal = legal; o.photo = r.P(0.2); o.big = r.P(0.2); o.simple_meta = true; j.kind = "groups"; j.bytes = GenJpeg(r.Next(), o, &j.info); return j;
}
static void Dims(Rng& r, const B::JPEGData& d, size_t* ac, size_t* dc) {
  size_t m = 1; while (m < (size_t)std::max(d.max_h_samp_factor, d.max_v_samp_factor)) m *= 2;
  if (r.P(0.25)) { *ac = 32; *dc = 128; } else { *ac = m << r.U(4); *dc = *ac << r.U(4); }
}
static bool Pow2(int x) { return (x & (x - 1)) == 0; }

// Round trip: what is encoded by groups is decoded to the same file.
PROPERTY(G01) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = GJpg(r, false, r.P(0.5)); if (r.P(0.05)) j.bytes = MutateJpeg(j.bytes, &r);
    c.Input(j.bytes); c.evaluations++; B::JPEGData d; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    bool supported = Pow2(d.max_h_samp_factor) && Pow2(d.max_v_samp_factor);
    std::string plain; if (!EncodeData(d, &plain)) { c.Ev("encoder-refused"); return; }
    for (int q = 0; q < 3; ++q) {
      size_t ac, dc; Dims(r, d, &ac, &dc); std::string dim = std::to_string(ac) + "/" + std::to_string(dc); B::Executor seq = B::SequentialExecutor; bool ok; c.Step("encode");
      std::string b = GEnc(d, ac, dc, &seq, &ok);
      if (!ok) { if (supported) c.Violation("groups-encoder-refuses", dim, j.bytes); else c.Ev("unsupported-sampling"); continue; }
      c.Ev("encoded"); size_t wb = d.MCU_cols * d.max_h_samp_factor, hb = d.MCU_rows * d.max_v_samp_factor; size_t na = ((wb + ac - 1) / ac) * ((hb + ac - 1) / ac), nd = ((wb + dc - 1) / dc) * ((hb + dc - 1) / dc); c.Ev("ac-groups", na); c.Ev("dc-groups", nd); if (na > 1) c.Ev("several-groups"); if (nd > 1) c.Ev("several-dc-groups");
      c.Nontrivial(HashStr(b)); c.Step("decode");
      B::JPEGData e; if (!B::DecodeGroups(U8(b), b.size(), &e, ac, dc, &seq)) { c.Violation("groups-decoder-rejects", dim, j.bytes); continue; }
      std::string f = DiffData(d, e); if (!f.empty()) c.Violation("groups-representation-differs:" + f.substr(0, f.find('[')), f + " " + dim, j.bytes);
      std::string o; if (!Write(e, &o)) c.Violation("groups-not-serialisable", dim, j.bytes); else if (o != j.bytes) c.Violation("groups-mismatch", dim, j.bytes);
      if (na == 1 && nd == 1) { c.Ev("single-group"); if (Decode(b, &o) != 0 || o != j.bytes) c.Violation("single-group-is-not-a-regular-stream", dim, j.bytes); }
      // a short buffer is refused, not overrun
      for (size_t cap : {b.size() - 1, (size_t)r.U(b.size()), b.size()}) { GuardBuf g(cap); size_t len = cap; c.Step("small-buffer"); bool k = B::EncodeGroups(d, g.p, &len, ac, dc, &seq); c.Ev("capacities"); if (k != (cap >= b.size())) c.Violation("groups-capacity-verdict", std::to_string(cap) + " of " + std::to_string(b.size()), j.bytes); if (!g.FrontIntact()) c.Violation("groups-underrun", "", j.bytes); if (cap > (1u << 22)) break; }
      c.Sample(dim + " groups: " + std::to_string(na) + " AC, " + std::to_string(nd) + " DC groups of a " + std::to_string(d.width) + "x" + std::to_string(d.height) + " image, " + std::to_string(b.size()) + "B");
    }
    {  // any other group size: refused, or restored all the same
      size_t ac = 1 + r.U(r.P(0.5) ? 8 : 40), dc = r.P(0.5) ? ac * (1 + r.U(7)) : 1 + r.U(100); if (r.P(0.3)) { ac = (size_t)1 << r.R(1, 7); dc = (size_t)1 << r.U(7); } B::Executor seq = B::SequentialExecutor; bool ok; std::string dim = std::to_string(ac) + "/" + std::to_string(dc);
      c.Step("odd-encode"); std::string b = GEnc(d, ac, dc, &seq, &ok); bool usual = Pow2(ac) && Pow2(dc) && dc % ac == 0;
      c.Ev(ok ? usual ? "odd-size-usual" : "odd-size-accepted" : "odd-size-refused");
      if (ok) { c.Step("odd-decode"); B::JPEGData e; std::string f; if (!B::DecodeGroups(U8(b), b.size(), &e, ac, dc, &seq)) c.Violation("odd-groups-decoder-rejects", dim, j.bytes); else if (!(f = DiffData(d, e)).empty()) c.Violation("odd-groups-differ:" + f.substr(0, f.find('[')), f + " " + dim, j.bytes); }
    }
  });
}

// The schedule of the tasks never matters.
PROPERTY(G02) {
#if defined(CFG_tsan)
  bool tsan = true;
#else
  bool tsan = false;
#endif
  c.Cases([&](long idx, Rng& r) {
    Jpg j = GJpg(r, tsan && r.P(0.8), true); c.Input(j.bytes); c.evaluations++; B::JPEGData d; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    size_t ac, dc; Dims(r, d, &ac, &dc); if (r.P(0.5)) { while (ac > 1 && ac > (size_t)std::max(d.max_h_samp_factor, d.max_v_samp_factor)) { ac /= 2; } dc = ac * (1 + r.U(2)); }
    B::Executor seq = B::SequentialExecutor; bool ok; std::string want = GEnc(d, ac, dc, &seq, &ok); if (!ok) { c.Ev("unsupported"); return; }
    std::string hostile = want; if (r.P(0.3) && want.size() > 40) { hostile[want.size() - 1 - r.U(std::min<uint32_t>(want.size() / 2, 4000))] ^= 1 + r.U(255); }
    bool valid = hostile == want; B::JPEGData dseq; bool vseq = B::DecodeGroups(U8(hostile), hostile.size(), &dseq, ac, dc, &seq); c.Ev(vseq ? "decodable" : "damaged");
    if (valid && !vseq) { c.Violation("groups-decoder-rejects", "", j.bytes); return; }
    auto check = [&](const char* kind, B::Executor ex) {
      c.Ev(std::string("executor:") + kind); c.Step((std::string(kind) + "-encode").c_str());
      std::string b = GEnc(d, ac, dc, &ex, &ok); if (!ok) c.Violation("schedule-changes-encoder-verdict", kind, j.bytes); else if (b != want) c.Violation("schedule-changes-encoded-bytes", kind, j.bytes);
      c.Step((std::string(kind) + "-decode").c_str()); B::JPEGData e; bool v = B::DecodeGroups(U8(hostile), hostile.size(), &e, ac, dc, &ex);
      if (v != vseq) c.Violation("schedule-changes-decoder-verdict", kind, hostile);
      else if (v) { std::string f = DiffData(dseq, e); if (!f.empty()) c.Violation("schedule-changes-decoded-data", std::string(kind) + " " + f, hostile); }
    };
    Shuffled sh{&r}; check("shuffled", sh.Get()); c.Ev("shuffled-tasks", sh.tasks);
    int n = 2 + r.U(6);
    { Threads th; th.n = n; th.seed = r.Next(); check("threads", th.Get()); c.Ev("threads-tasks", th.tasks); c.Ev("overlap-" + std::to_string(th.maxin.load())); }
    { c.Step("pool-create"); B::ParallelExecutor pool(n); B::Executor ex = pool.getExecutor(); check("pool", ex); if (r.P(0.5)) { check("pool-again", ex); } c.Step("pool-destroy"); }
    c.Nontrivial(HashStr(want) ^ n);
    c.Sample(std::to_string(n) + " threads, groups " + std::to_string(ac) + "/" + std::to_string(dc) + ", " + std::to_string(want.size()) + "B");
  });
}

// The thread pool: every task runs exactly once per call, and has finished
// when the call returns; creation and destruction terminate.
PROPERTY(G04) {
  c.Cases([&](long idx, Rng& r) {
    c.evaluations++; int n = r.P(0.1) ? 1 : 1 + r.U(12); c.Step("pool-create"); std::vector<uint64_t> plan; uint64_t h = n; { int calls = r.P(0.15) ? 0 : 1 + r.U(12); for (int k = 0; k < calls; ++k) { plan.push_back(r.P(0.3) ? r.U(4) : r.U(300)); h = Mix(h ^ plan.back()); } }
    { B::ParallelExecutor pool(n); B::Executor ex = pool.getExecutor(); if (r.P(0.5)) usleep(r.U(300));
      for (uint64_t k : plan) {
        std::vector<std::atomic<int>> hit(k); for (auto& x : hit) x = 0; std::vector<uint64_t> plainv(k, 0); std::atomic<int> running{0}; int spin = r.P(0.3) ? r.U(3000) : 0; c.Step("pool-run");
        ex([&](size_t i) { running++; for (volatile int z = 0; z < spin; z = z + 1) {} if (i < k) { hit[i]++; plainv[i] = i + 1; } else hit[0] += 1000; running--; }, k);
        if (running.load()) c.Violation("returned-while-tasks-run", ""); c.Ev("tasks", k); c.Ev("calls");
        for (size_t i = 0; i < k; ++i) { if (hit[i] != 1) { c.Violation("task-not-run-exactly-once", std::to_string(i) + " ran " + std::to_string(hit[i].load())); break; } if (plainv[i] != i + 1) { c.Violation("task-effect-not-visible", std::to_string(i)); break; } }
      }
      if (plan.empty()) c.Ev("unused-pools"); if (r.P(0.3)) usleep(r.U(200)); c.Step("pool-destroy"); }
    c.Ev("pools-destroyed"); c.Nontrivial(Mix(h + idx));
    c.Sample(std::to_string(n) + " workers, " + std::to_string(plan.size()) + " calls");
  });
}

// Hostile group streams.
PROPERTY(G03) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = GJpg(r, true, true); B::JPEGData d; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    size_t ac, dc; Dims(r, d, &ac, &dc); if (r.P(0.5)) { size_t m = std::max(d.max_h_samp_factor, d.max_v_samp_factor); ac = m; dc = m * (1 + r.U(2)); }
    B::Executor seq = B::SequentialExecutor; bool ok; std::string b = GEnc(d, ac, dc, &seq, &ok); std::vector<Sec> v; if (!ok || !ParseSecs(b, &v)) { c.Ev("unsupported"); return; }
    std::string m = b, w; int kind = r.U(9);
    switch (kind) {
      case 0: w = "cut"; m.resize(r.U(b.size())); break;
      case 1: w = "trail"; m += std::string(1 + r.U(9), (char)r.U(256)); break;
      case 2: w = "blind"; MutBytes(&m, &r, 1 + r.U(5)); break;
      case 3: w = "drop-section"; v.erase(v.begin() + r.U(v.size())); m = BuildBrn(v); break;
      case 4: w = "dup-section"; { Sec e = v[r.U(v.size())]; v.insert(v.begin() + r.U(v.size() + 1), e); m = BuildBrn(v); } break;
      case 5: w = "swap-sections"; std::swap(v[r.U(v.size())], v[r.U(v.size())]); m = BuildBrn(v); break;
      case 6: { w = "replace-section"; Sec e; e.tag = r.R(1, 15); e.body = std::string(r.U(20), (char)r.U(256)); v[r.P(0.7) ? r.U(std::min<size_t>(v.size(), 5)) : r.U(v.size())] = e; m = BuildBrn(v); break; }
      case 7: { w = "other-group-size"; dc = ac = std::max<size_t>(ac / 2, std::max(d.max_h_samp_factor, d.max_v_samp_factor)); break; }
      default: { std::string o; std::string w2; Jpg j2 = GJpg(r, true, true); std::string b2; Encode(j2.bytes, &b2); m = MutateBrn(b, b2.empty() ? b : b2, &r, &w2); w = "mutated"; break; }
    }
    c.Input(m); c.evaluations++; c.Ev("kind:" + w); c.Nontrivial(HashStr(m)); GuardBuf g(m); c.Step("decode-hostile");
    B::JPEGData e; Shuffled sh{&r}; B::Executor ex = r.P(0.5) ? seq : sh.Get(); bool k = B::DecodeGroups(g.p, m.size(), &e, ac, dc, &ex); c.Ev(k ? "accepted" : "rejected");
    if (k && (kind == 0 || kind == 1)) c.Violation(kind ? "groups-trailing-bytes-accepted" : "groups-truncated-accepted", std::to_string(m.size()) + " of " + std::to_string(b.size()), m);
    if (k) { std::string o; c.Step("write"); bool wr = Write(e, &o); c.Ev(wr ? "written" : "not-written"); if (m == b && kind != 7 && (!wr || o != j.bytes)) c.Violation("unchanged-stream-mismatch", w, m); }
    c.Sample(w + " " + std::to_string(m.size()) + "B " + (k ? "accepted" : "rejected"));
  });
}
