// C API contracts, determinism, thread independence, resource use.
#include <malloc.h>
#include <pthread.h>
#include <atomic>
#include <thread>
#include "mem.h"
#include "pool.h"

std::string HostileStream(Ctx& c, Rng& r, long idx, std::string* kind);

struct Sink { std::string got; long fail_at = -1; int mode = 0; long calls = 0; long after = 0; bool failed = false; };
static size_t SinkFn(void* d, const uint8_t* b, size_t n) {
  Sink* s = (Sink*)d; if (s->failed) { s->after++; return n; }
  if (s->calls++ == s->fail_at) {
    s->failed = true;
    switch (s->mode) { case 0: return 0; case 1: s->got.append((const char*)b, n / 2); return n / 2; case 2: s->got.append((const char*)b, n); return n + 1; case 3: s->got.append((const char*)b, n - (n > 0)); return n - (n > 0); default: return (size_t)-1; }
  }
  s->got.append((const char*)b, n); return n;
}
// The sink decides: what it refuses is an error, what it accepts is complete.
PROPERTY(A01) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = PickJpeg(&r, false, 0.2, 300); std::string b; c.Input(j.bytes); c.evaluations++;
    std::string k; 
    Sink e; c.Step("encode"); int rc = EncodeBrunsli(j.bytes.size(), U8(j.bytes), &e, SinkFn); c.Ev(rc == 1 ? "encoded" : "refused");
    if (rc != 0 && rc != 1) c.Violation("encode-return-value", std::to_string(rc), j.bytes);
    if (rc == 0 && !e.got.empty()) c.Violation("encode-output-with-error", "", j.bytes);
    if (rc == 1) {
      c.Nontrivial(HashStr(j.bytes));
      std::string o; if (Decode(e.got, &o) || o != j.bytes) c.Violation("encode-sink-bytes-wrong", "", j.bytes);
      for (int q = 0; q < 3; ++q) { Sink f; f.fail_at = r.U(e.calls); f.mode = r.U(5); c.Ev("encode-sink-faults"); int rf = EncodeBrunsli(j.bytes.size(), U8(j.bytes), &f, SinkFn);
        if (rf != 0) c.Violation("encode-ignores-sink-error", "mode " + std::to_string(f.mode), j.bytes); if (f.after) c.Violation("encode-calls-sink-after-error", "", j.bytes);
        if (f.mode != 2 && e.got.compare(0, f.got.size(), f.got) != 0) c.Violation("encode-partial-output-differs", "", j.bytes); }
      b = e.got; k = "v2"; if (r.P(0.5)) b = PickBrn(&r, j.bytes, &k);
    } else { b = PickBrn(&r, j.bytes, &k); }
    if (b.empty()) return;
    Sink d; c.Step("decode"); int rd = DecodeBrunsli(b.size(), U8(b), &d, SinkFn);
    if (rd != 1) { c.Violation("decode-refuses-valid", k, b); return; }
    if (d.got != j.bytes) c.Violation("decode-sink-bytes-wrong", k, b);
    c.Ev("decode-sink-calls", d.calls);
    for (int q = 0; q < 6 && d.calls; ++q) { Sink f; f.fail_at = r.P(0.3) ? d.calls - 1 : r.U(d.calls); f.mode = r.U(5); c.Ev("decode-sink-faults"); int rf = DecodeBrunsli(b.size(), U8(b), &f, SinkFn);
      if (rf != 0) c.Violation("decode-ignores-sink-error", "call " + std::to_string(f.fail_at) + " of " + std::to_string(d.calls) + " mode " + std::to_string(f.mode), b); if (f.after) c.Violation("decode-calls-sink-after-error", "", b);
      if (f.mode != 2 && d.got.compare(0, f.got.size(), f.got) != 0) c.Violation("decode-partial-output-differs", "", b); }
    // hostile stream: an error is reported as 0, never as success
    std::string w, m; if (r.P(0.4)) m = InconsistentBrn(&r, j.bytes); if (m.empty()) m = MutateBrn(b, b, &r, &w); Sink x; int rx = DecodeBrunsli(m.size(), U8(m), &x, SinkFn); std::string o; int st = Decode(m, &o);
    if ((rx == 1) != (st == 0)) c.Violation("decode-verdict-differs", std::to_string(rx) + "/" + std::to_string(st), m);
    c.Sample(k + ": " + std::to_string(d.calls) + " sink calls");
  });
}

// Recognition by signature, and the memory estimate.
PROPERTY(A02) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind, b; bool valid = r.P(0.4);
    if (valid && r.P(0.04)) {  // wide and flat: the coding state of the components outweighs the rest
      GenOptions o; o.fixed_w = r.P(0.5) ? 65535 : 8192 + r.U(57000); o.fixed_h = 1 + r.U(16); o.max_blocks = 200000; o.force_ncomp = 1 + r.U(4); o.simple_meta = true; o.force_progressive = r.P(0.8) ? 0 : 1; o.style = r.P(0.5) ? 2 : -1;
      Jpg j; j.bytes = GenJpeg(r.Next(), o, &j.info); b = PickBrn(&r, j.bytes, &kind); kind = "wide-" + kind; if (b.empty()) { c.Ev("no-stream"); return; }
    } else if (valid) { Jpg j = PickJpeg(&r, c.thorough(), 0.1, r.P(0.9) ? 300 : 2000); b = PickBrn(&r, j.bytes, &kind); if (b.empty()) { c.Ev("no-stream"); return; } }
    else { b = HostileStream(c, r, 1 << 28, &kind); if (kind.empty() || (b.empty() && kind.size() < 4)) { c.Ev("no-stream"); return; } }
    c.Input(b); c.evaluations++; c.Ev("kind:" + (valid ? kind : std::string("hostile"))); c.Nontrivial(HashStr(b));
    // any prefix, any length
    for (int q = 0; q < 6; ++q) {
      size_t n = q < 3 ? r.U(std::min<size_t>(b.size() + 1, 10)) : r.U(b.size() + 1); std::string p = b.substr(0, n); if (q & 1 && n) p[r.U(std::min<size_t>(n, 8))] ^= 1 << r.U(8);
      GuardBuf g(p); bool want = p.size() >= 6 && memcmp(p.data(), kSig, 6) == 0; c.Ev(want ? "signature-present" : "signature-absent");
      if (B::IsBrunsli(g.p, p.size()) != want) c.Violation(want ? "signature-not-recognised" : "signature-false-positive", Hex(p, 8) + " len " + std::to_string(n), p);
    }
    if (idx % 16 == 0) { if (B::IsBrunsli(nullptr, 0)) c.Violation("empty-recognised", ""); if (B::BrunsliEstimateDecoderPeakMemoryUsage(nullptr, 0) != 0) c.Violation("empty-estimate", ""); }
    GuardBuf g(b); c.Step("estimate"); size_t est = B::BrunsliEstimateDecoderPeakMemoryUsage(g.p, b.size());
    if (B::BrunsliEstimateDecoderPeakMemoryUsage(g.p, b.size()) != est) c.Violation("estimate-not-repeatable", "", b);
    size_t before = 0; if (MemTracked()) { MemReset(); before = MemNow().live; }
    c.Step("decode"); int st; size_t peak = 0; size_t cb = 0;
    { B::JPEGData d; st = (int)B::BrunsliDecodeJpeg(g.p, b.size(), &d); if (MemTracked()) peak = MemNow().peak - before;
      for (auto& k : d.components) cb += k.coeffs.size() * 2; }
    if (st == 0) {
      c.Ev("accepted");
      if (est == 0) c.Violation("estimate-zero-for-valid", kind, b);
      if (est < cb) c.Violation("estimate-below-coefficients", std::to_string(est) + " < " + std::to_string(cb), b);
      if (MemTracked()) {
        size_t slack = (1 << 17) + est / 8;  // metadata and small fixed structures are not part of the estimate
        std::vector<Sec> v; size_t meta = 0; if (ParseSecs(b, &v)) for (auto& e : v) if (e.tag == 4 || e.tag == 3) { std::string p; MetaPlain(e.body, &p); meta += 4 * (p.size() + e.body.size()); }
        if (peak > est + slack + meta) c.Violation("estimate-below-actual-use", std::to_string(peak) + " > " + std::to_string(est), b);
        if (est > 16 * (peak + (1 << 20)) + 4 * b.size()) c.Violation("estimate-useless", std::to_string(est) + " for " + std::to_string(peak), b);
        c.Ev("peaks-compared");
        c.Sample(kind + ": estimate " + std::to_string(est) + ", observed peak " + std::to_string(peak));
      }
    }
    if (b.size() < 6 && est) c.Violation("estimate-for-garbage", "", b);
  });
}

struct Out { int rc[6] = {0}; std::string s[6]; bool operator==(const Out& o) const { for (int i = 0; i < 6; ++i) if (rc[i] != o.rc[i] || s[i] != o.s[i]) return false; return true; } };
// Everything the library computes from (jpeg, brn).
static Out All(const std::string& j, const std::string& b) {
  Out o; B::JPEGData d; o.rc[0] = Read(j, &d);
  if (o.rc[0]) { for (int v : {0, 2}) { d.version = v; o.rc[1] += EncodeData(d, v ? &o.s[0] : &o.s[1]); } o.rc[2] = Write(d, &o.s[2]); }
  o.rc[3] = Decode(b, &o.s[3]); o.rc[4] = EncodeC(j, &o.s[4]);
  { B::BrunsliDecoder dec; size_t ai = 0; size_t pos = 0; std::vector<uint8_t> ob(777); for (int guard = 0; guard < 200000; ++guard) {
      std::string chunk = b.substr(pos, 501); ai = chunk.size(); const uint8_t* ni = U8(chunk); size_t ao = ob.size(); uint8_t* no = ob.data(); auto st = dec.Decode(&ai, &ni, &ao, &no); pos += chunk.size() - ai; o.s[5].append((char*)ob.data(), ob.size() - ao); o.rc[5] = (int)st;
      if (st == B::BrunsliDecoder::ERROR || st == B::BrunsliDecoder::DONE || (st == B::BrunsliDecoder::NEEDS_MORE_INPUT && pos >= b.size())) break; } }
  return o;
}
// Results depend on the arguments only: not on heap contents, earlier calls,
// alignment of the input or the place of the buffers.
PROPERTY(A03) {
  std::string pj, pb;
  c.Cases([&](long idx, Rng& r) {
    Jpg j = PickJpeg(&r, false, 0.2, 150); std::string k, b = PickBrn(&r, j.bytes, &k), w; if (b.empty()) { Bypass(j.bytes, &b); k = "bypass"; }
    if (r.P(0.4)) { std::string i; if (r.P(0.4)) i = InconsistentBrn(&r, j.bytes); if (!i.empty()) { b = i; k = "inconsistent"; } else { b = MutateBrn(b, b, &r, &w); k += "+mut"; } }
    c.Input(b); c.evaluations++; c.Nontrivial(HashStr(b)); c.Ev("kind:" + k);
    mallopt(M_PERTURB, 0); c.Step("first"); Out a = All(j.bytes, b);
    for (int fill : {0x55, 0xAA, 1 + (int)r.U(255)}) {
      mallopt(M_PERTURB, fill); c.Step("perturbed");
      { std::vector<std::string> junk; for (int q = 0; q < 8; ++q) junk.emplace_back(1 + r.U(60000), (char)fill); }
      if (r.P(0.5) && !pb.empty()) { All(pj, pb); c.Ev("after-other-input"); }
      Out o = All(j.bytes, b); c.Ev("repetitions");
      if (!(o == a)) { int at = 0; for (int i = 0; i < 6; ++i) if (o.rc[i] != a.rc[i] || o.s[i] != a.s[i]) at = i; c.Violation("result-not-repeatable", "fill " + std::to_string(fill) + " output " + std::to_string(at), b); }
    }
    mallopt(M_PERTURB, 0);
    // input at every alignment
    std::string t(j.bytes.size() + 16, 0), u(b.size() + 16, 0); int off = 1 + r.U(15); memcpy(&t[off], j.bytes.data(), j.bytes.size()); memcpy(&u[off], b.data(), b.size());
    B::JPEGData d1, d2; int s1 = (int)B::BrunsliDecodeJpeg(U8(b), b.size(), &d1), s2 = (int)B::BrunsliDecodeJpeg(U8(u) + off, b.size(), &d2);
    if (s1 != s2) c.Violation("alignment-changes-verdict", std::to_string(off), b);
    else if (s1 == 0) { std::string o1, o2; if (Write(d1, &o1) != Write(d2, &o2) || o1 != o2) c.Violation("alignment-changes-result", std::to_string(off), b); }
    B::JPEGData d3, d4; bool r3 = Read(j.bytes, &d3), r4 = B::ReadJpeg(U8(t) + off, j.bytes.size(), B::JPEG_READ_ALL, &d4);
    if (r3 != r4 || (r3 && !DiffData(d3, d4).empty())) c.Violation("alignment-changes-reader", std::to_string(off), j.bytes);
    pj = j.bytes; pb = b;
    c.Sample(k + " " + std::to_string(b.size()) + "B, outputs repeated with 3 heap fills");
  });
}

// Small inputs for valgrind: it reports decisions on uninitialised bytes.
PROPERTY(A03V) {
  c.Cases([&](long idx, Rng& r) {
    GenOptions o; o.tiny = r.P(0.5); o.max_blocks = 30; o.simple_meta = true; GenInfo gi; std::string j = GenJpeg(r.Next(), o, &gi), k, w, b = PickBrn(&r, j, &k);
    if (r.P(0.2)) j = MutateJpeg(j, &r);
    if (b.empty()) Bypass(j, &b); if (r.P(0.4)) { std::string i; if (r.P(0.4)) i = InconsistentBrn(&r, j); if (!i.empty()) { b = i; k = "inconsistent"; } else { b = MutateBrn(b, b, &r, &w); k += "+mut"; } }
    c.Input(b); c.evaluations++; c.Nontrivial(HashStr(b)); c.Ev("kind:" + k); c.Step("all");
    Out a = All(j, b); uint64_t h = 0; for (int i = 0; i < 6; ++i) h ^= HashStr(a.s[i]); if (h == 42) c.Ev("hash-42");  // outputs must be initialised, too
    c.Sample(k + " " + std::to_string(b.size()) + "B under memcheck");
  });
}

// Independent objects used by several threads at once.
PROPERTY(A04) {
  c.Cases([&](long idx, Rng& r) {
    int n = 2 + r.U(5); std::vector<std::string> js(n), bs(n); std::vector<Out> want(n), got(n);
    for (int i = 0; i < n; ++i) { Jpg j = PickJpeg(&r, false, 0.1, 60); std::string k, b; js[i] = j.bytes; RefEncode(js[i], r.P(0.7) ? 2 : 0, &b); if (b.empty()) b = std::string(kSig, 6); std::string w; if (r.P(0.2)) b = MutateBrn(b, b, &r, &w); else if (r.P(0.15)) { std::string x = InconsistentBrn(&r, js[i]); if (!x.empty()) b = x; } bs[i] = b; if (i && r.P(0.3)) { js[i] = js[0]; bs[i] = bs[0]; } }
    c.evaluations++; c.Step("threads"); int reps = 1 + r.U(3);
    std::atomic<int> ready{0}; std::vector<std::thread> th; std::atomic<int> inside{0}; std::atomic<int> maxin{0};
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ready++; while (ready.load() < n) {} for (int q = 0; q < reps; ++q) { int k = ++inside; int m = maxin.load(); while (k > m && !maxin.compare_exchange_weak(m, k)) {} got[i] = All(js[i], bs[i]); --inside; } });
    for (auto& t : th) t.join();
    c.Ev("threads", n); c.Ev("overlap-" + std::to_string(maxin.load())); c.Ev("operations", (uint64_t)n * reps * 6);
    c.Step("sequential"); for (int i = 0; i < n; ++i) { want[i] = All(js[i], bs[i]); if (!(want[i] == got[i])) c.Violation("thread-result-differs", "thread " + std::to_string(i), bs[i]); }
    uint64_t h = n; for (auto& b : bs) h = Mix(h ^ HashStr(b)); c.Nontrivial(h);
    c.Sample(std::to_string(n) + " threads x " + std::to_string(reps) + " repetitions, max overlap " + std::to_string(maxin.load()));
  });
}

// Memory stays proportional to what the input declares, and is given back.
static bool Declared(const std::string& b, uint64_t* blocks, uint64_t* meta) {
  *blocks = *meta = 0; std::vector<Sec> v, h; if (b.size() < 6) return false;
  // tolerant parse: sections as far as they go
  size_t pos = 6; bool any = false;
  while (pos < b.size()) {
    uint8_t m = b[pos++]; uint64_t x; int nb; if (!RdVar(b, &pos, &x, &nb)) break;
    if ((m & 7) == 2) {
      std::string body = b.substr(pos, std::min<uint64_t>(x, b.size() - pos));
      if ((m >> 3) == 1 || !any) { std::vector<Sec> hs; ParseSecs(body, &hs, 0); uint64_t w = 0, hh = 0, vc = 0; for (auto& e : hs) { if (e.tag == 1) w = e.value; if (e.tag == 2) hh = e.value; if (e.tag == 3) vc = e.value; } w = std::min<uint64_t>(w, 65535); hh = std::min<uint64_t>(hh, 65535);
        uint64_t one = std::min<uint64_t>(1ull << 21, ((w + 127) / 8 + 15) * ((hh + 127) / 8 + 15)); *blocks = one * ((vc & 3) + 1); any = true; }
      else { size_t p = 0; uint64_t n; int k; if (body.size() > 1 && RdVar(body, &p, &n, &k)) *meta = std::max(*meta, std::min<uint64_t>(n, 1ull << 32)); }
      pos += std::min<uint64_t>(x, b.size() - pos);
    }
  }
  return true;
}
static int64_t last_growth = 0;
PROPERTY(D05) {
  if (!MemTracked()) return;
  c.Cases([&](long idx, Rng& r) {
    std::string kind, b; int mode = r.U(5);
    if (mode == 4) {  // the announced lengths are enormous, the bytes are few
      GenOptions o; o.max_blocks = 20; o.simple_meta = true; o.tiny = true; if (r.P(0.5)) o.style = 2; std::string k; Jpg j;
      j.bytes = GenJpeg(r.Next(), o, &j.info); b = PickBrn(&r, j.bytes, &k, false); std::vector<Sec> v; if (b.empty() || !ParseSecs(b, &v)) { c.Ev("no-stream"); return; }
      size_t i = r.P(0.5) ? r.U(v.size()) : 0; if (i == 0) for (size_t q = 0; q < v.size(); ++q) if (v[q].tag == 4) i = q;
      auto& e = v[i]; size_t at = r.P(0.6) ? e.body.size() - std::min<size_t>(e.body.size(), r.U(14)) : r.U(e.body.size() + 1);
      uint64_t lie = 1ull << r.R(16, 34); if (r.P(0.5)) lie -= 1;
      if (r.P(0.8)) e.body = e.body.substr(0, at) + Var(lie, r.P(0.2) ? 6 : 0) + std::string(r.U(5), (char)r.U(256)); else if (r.P(0.5)) e.body.resize(at);
      e.lenbytes = 0; e.len_override = 1ll << r.R(20, 45); v.resize(i + 1); b = BuildBrn(v); kind = "huge-lengths"; c.Ev("lie:" + std::to_string(e.tag));
    } else if (mode == 0) { Jpg j = PickJpeg(&r, false, 0.1, 200); b = PickBrn(&r, j.bytes, &kind); if (b.empty()) { c.Ev("no-stream"); return; } }
    else { b = HostileStream(c, r, 1 << 28, &kind); if (b.empty()) { c.Ev("no-stream"); return; } }
    c.Input(b); uint64_t blocks, meta; Declared(b, &blocks, &meta);
    c.evaluations++; c.Nontrivial(HashStr(b)); c.Ev("mode-" + std::to_string(mode));
    uint64_t cap = (48ull << 20) + 24ull * b.size() + blocks * (128 + 16) * 2 + 4 * meta;
    auto body = [&](const char* what, int q) -> uint64_t {
      MemReset(); size_t l0 = MemNow().live; c.Step(what);
      if (q == 0) { B::JPEGData d; B::BrunsliDecodeJpeg(U8(b), b.size(), &d); }
      else if (q == 1) { B::BrunsliEstimateDecoderPeakMemoryUsage(U8(b), b.size()); }
      else { B::BrunsliDecoder dec; size_t pos = 0; std::vector<uint8_t> ob(4096); size_t ch = 1 + (HashStr(b) % 900); size_t upto = q == 3 ? b.size() * (HashStr(b) % 100) / 100 : b.size();
        for (int guard = 0; guard < 100000; ++guard) { size_t n = std::min(ch, upto - pos); size_t ai = n, ao = ob.size(); const uint8_t* ni = U8(b) + pos; uint8_t* no = ob.data(); auto st = dec.Decode(&ai, &ni, &ao, &no); pos += n - ai; if (st == B::BrunsliDecoder::ERROR || st == B::BrunsliDecoder::DONE || (st == B::BrunsliDecoder::NEEDS_MORE_INPUT && pos >= upto)) break; } }
      uint64_t peak = MemNow().peak - l0; last_growth = (int64_t)MemNow().live - (int64_t)l0; if (last_growth) c.Ev("grew-once");
      return peak;
    };
    static const char* names[] = {"decode", "estimate", "stream", "stream-abandoned"};
    for (int q = 0; q < 4; ++q) {
      uint64_t p = body(names[q], q); c.Ev("calls");
      if (p > cap) c.Violation("memory-exceeds-declared-size", std::string(names[q]) + " used " + std::to_string(p) + " cap " + std::to_string(cap) + " blocks " + std::to_string(blocks), b);
      // one-time initialisation may stay; what stays on every call is lost
      int again = 0; while (last_growth && again < 4) { again++; body(names[q], q); }
      if (last_growth) c.Violation("memory-not-released", std::string(names[q]) + " keeps " + std::to_string(last_growth) + " bytes on each call", b);
    }
    c.Sample(kind + " " + std::to_string(b.size()) + "B, " + std::to_string(blocks) + " declared blocks, cap " + std::to_string(cap));
  });
}
// The same for the reader and the encoder.
PROPERTY(D05E) {
  if (!MemTracked()) return;
  c.Cases([&](long idx, Rng& r) {
    Jpg j = PickJpeg(&r, false, 0.5, 200); std::string s = j.bytes; if (r.P(0.2)) s.resize(r.U(s.size() + 1));
    c.Input(s); c.evaluations++; c.Nontrivial(HashStr(s));
    std::string b; b.reserve(1 << 22);
    for (int q = 0; q < 4; ++q) {
      uint64_t peak = 0; int64_t grew = 0;
      for (int again = 0; again < 4; ++again) {
        MemReset(); size_t l0 = MemNow().live; c.Step("reader-encoder");
        bool ok; { B::JPEGData d; ok = Read(s, &d, q == 0 ? B::JPEG_READ_HEADER : q == 1 ? B::JPEG_READ_TABLES : B::JPEG_READ_ALL); if (ok && q == 3) { size_t len = B::GetMaximumBrunsliEncodedSize(d); std::vector<uint8_t> o(len); B::BrunsliEncodeJpeg(d, o.data(), &len); } }
        peak = MemNow().peak - l0; grew = (int64_t)MemNow().live - (int64_t)l0; if (!grew) break;
      }
      if (grew) c.Violation("memory-not-released", "mode " + std::to_string(q) + " keeps " + std::to_string(grew) + " bytes on each call", s);
      c.Ev("calls"); if (q < 2 && peak > (8u << 20) + 24 * s.size()) c.Violation("cheap-read-uses-much-memory", std::to_string(peak), s);
    }
    c.Sample(j.kind + " " + std::to_string(s.size()) + "B");
  });
}
