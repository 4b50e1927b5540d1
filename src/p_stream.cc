#include "pool.h"
#include <set>
#include "mem.h"

static std::string HostileOrValid(Ctx& c, Rng& r, std::string* kind, bool* valid) {
  static const int kSp[] = {2, 2, 3, 4, 6};
  static const int kHuge[] = {0, 1, 3, 6}; Jpg j = r.P(0.004) ? HugeJpeg(&r, kHuge[r.U(4)]) : r.P(0.04) ? SpecialJpeg(&r, kSp[r.U(5)]) : PickJpeg(&r, c.thorough(), 0.1, 300);
  std::string k1, b = PickBrn(&r, j.bytes, &k1);
  if (b.empty()) return b;
  *valid = true; *kind = k1;
  double p = r.D();
  if (p < 0.45) return b;
  if (p < 0.55) { b.resize(r.U(b.size())); *kind += "+cut"; *valid = false; return b; }
  *valid = false;
  if (r.P(0.35)) { std::string i = InconsistentBrn(&r, j.bytes); if (!i.empty()) { *kind = "inconsistent"; return i; } }
  Jpg j2 = PickJpeg(&r, false, 0, 60); std::string k2, b2 = PickBrn(&r, j2.bytes, &k2);
  std::string what; b = MutateBrn(b, b2, &r, &what);
  *kind += "+mut"; return b;
}

// Chunking never changes the result.
PROPERTY(S01) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind; bool valid = false; std::string b = HostileOrValid(c, r, &kind, &valid);
    if (b.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Ev("kind:" + kind);
    std::string want; c.Step("oneshot"); int st = Decode(b, &want);
    if (valid && st) { c.Violation("valid-stream-rejected", std::to_string(st), b); return; }
    c.Ev(st == 0 ? "oneshot-ok" : st == 7 ? "oneshot-truncated" : "oneshot-rejected");
    int runs = b.size() < 3000 ? 5 : b.size() < 20000 ? 2 : 1;
    std::string partial; bool have = false;
    for (int k = 0; k < runs; ++k) {
      Schedule s = RandomSchedule(&r, b.size(), st == 0 ? want.size() : 4096); c.Step("stream");
      auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {});
      c.Ev("schedules"); c.Ev("in:" + s.label.substr(0, s.label.find('/'))); c.Ev("calls", res.calls);
      std::string det = s.label + " oneshot=" + std::to_string(st) + " stream=" + std::to_string(res.status);
      if (res.stuck) c.Violation("stream-stuck", det, b);
      if (st == 0) {
        if (res.status != 3) c.Violation("stream-rejects-accepted", det, b);
        else if (res.out != want) c.Violation("stream-output-differs", det, b);
      } else {
        if (res.status == 3) c.Violation("stream-accepts-rejected", det, b);
        else if (st == 7 && res.status == 2) c.Ev("truncated-but-error");
        else if (st != 7 && res.status == 0) c.Violation("stream-wants-more-of-rejected", det, b);
        if (have) { size_t n = std::min(partial.size(), res.out.size()); if (partial.compare(0, n, res.out, 0, n) != 0) c.Violation("partial-output-differs", det, b); }
        if (!have || res.out.size() > partial.size()) partial = res.out; have = true;
      }
      c.Nontrivial(HashStr(b) ^ HashStr(s.label) * 31 ^ k);
    }
    c.Sample(kind + " stream of " + std::to_string(b.size()) + "B, one-shot status " + std::to_string(st) + ", " + std::to_string(runs) + " schedules");
  });
}

// Exhaustive two-chunk splits and byte-by-byte output windows of small streams.
static void Splits(Ctx& c, Rng& r, const std::string& b, const std::string& want) {
  for (size_t cut = 0; cut <= b.size(); ++cut) {
    Schedule s; bool first = true; s.scribble = false; s.drain_first = true;
    s.in = [&] { bool f = first; first = false; return f && cut ? cut : b.size(); };
    size_t w = want.size() + 100; s.out = [w] { return w; };
    auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {});
    c.Ev("two-chunk-splits");
    if (res.status != 3 || res.out != want) c.Violation("split-changes-result", "cut " + std::to_string(cut) + " status " + std::to_string(res.status), b);
  }
}
PROPERTY(S04) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j; GenOptions o; o.max_blocks = 40; o.tiny = r.P(0.5); o.simple_meta = true; o.legal = r.P(0.5);
    j.bytes = GenJpeg(r.Next(), o, &j.info); std::string k, b = PickBrn(&r, j.bytes, &k);
    if (b.empty() || b.size() > 6000) { c.Ev("skipped"); return; }
    c.Input(b); c.evaluations++; std::string want; if (Decode(b, &want)) { c.Violation("valid-stream-rejected", "", b); return; }
    Splits(c, r, b, want); c.Nontrivial(HashStr(b)); c.Ev("kind:" + k);
    c.Sample(k + " stream of " + std::to_string(b.size()) + "B: all two-chunk splits");
  });
}

// Accounting / status contract of the incremental decoder.
PROPERTY(S02) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind; bool valid = false; std::string b = HostileOrValid(c, r, &kind, &valid);
    if (b.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Ev("kind:" + kind);
    for (int k = 0; k < (b.size() < 5000 ? 4 : 1); ++k) {
      Schedule s = RandomSchedule(&r, b.size(), 4 * b.size()); s.empty_call = r.P(0.5) ? 0.3 : 0; c.Step("stream");
      auto res = StreamDecode(b, s, &r, [&](const std::string& key, const std::string& d) { c.Violation(key, d + " " + s.label + " " + kind, b); });
      if (res.stuck) c.Violation("no-progress", s.label, b);
      if (valid && res.status != 3) c.Violation("valid-not-done", s.label + " " + std::to_string(res.status), b);
      if (res.status == 3 && res.consumed != b.size()) c.Violation("done-without-consuming-input", std::to_string(res.consumed) + "/" + std::to_string(b.size()), b);
      c.Ev("status-" + std::to_string(res.status)); c.Ev("calls", res.calls); c.Nontrivial(HashStr(b) ^ HashStr(s.label) ^ k);
    }
    // stickiness of terminal states
    {
      B::BrunsliDecoder d; size_t ai = b.size(); const uint8_t* ni = U8(b); std::vector<uint8_t> ob(4 * b.size() + 100000); 
      B::BrunsliDecoder::Status st; int guard = 0; size_t total = 0;
      do { size_t ao = ob.size(); uint8_t* no = ob.data(); st = d.Decode(&ai, &ni, &ao, &no); total += ob.size() - ao; } while (st == B::BrunsliDecoder::NEEDS_MORE_OUTPUT && ++guard < 100000);
      if (st == B::BrunsliDecoder::DONE || st == B::BrunsliDecoder::ERROR) {
        for (int k = 0; k < 3; ++k) {
          uint8_t x = r.U(256); bool give = st == B::BrunsliDecoder::ERROR && r.P(0.5); size_t ai2 = give ? 1 : 0; const uint8_t* ni2 = &x; size_t ao = ob.size(); uint8_t* no = ob.data();
          auto s2 = d.Decode(&ai2, &ni2, &ao, &no); c.Ev("calls-after-end");
          if (s2 != st) c.Violation(st == B::BrunsliDecoder::DONE ? "done-not-sticky" : "error-not-sticky", std::to_string((int)s2), b);
          if (ao != ob.size()) c.Violation("output-after-end", "", b);
        }
        if (st == B::BrunsliDecoder::DONE) {  // more input after the end is an error, not silence
          uint8_t x = r.U(256); size_t ai2 = 1; const uint8_t* ni2 = &x; size_t ao = ob.size(); uint8_t* no = ob.data();
          auto s2 = d.Decode(&ai2, &ni2, &ao, &no);
          if (s2 != B::BrunsliDecoder::ERROR) c.Violation("input-after-done-accepted", std::to_string((int)s2), b);
        }
      }
    }
    c.Sample(kind + " " + std::to_string(b.size()) + "B");
  });
}

// Consumed input is never needed again.
PROPERTY(S03) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = r.P(0.02) ? SpecialJpeg(&r, 2 + r.U(5)) : PickJpeg(&r, c.thorough(), 0.1, 300); std::string k, b = PickBrn(&r, j.bytes, &k);
    if (b.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Ev("kind:" + k);
    for (int q = 0; q < (b.size() < 5000 ? 4 : 1); ++q) {
      Schedule s = RandomSchedule(&r, b.size(), j.bytes.size()); s.scribble = true; c.Step("stream");
      auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {});
      c.Ev("schedules"); c.Ev("released-buffers", res.calls); c.Nontrivial(HashStr(b) ^ HashStr(s.label) ^ q);
      if (res.status != 3) c.Violation("released-input-breaks-decoding", s.label + " status " + std::to_string(res.status), b);
      else if (res.out != j.bytes) c.Violation("released-input-changes-output", s.label + " " + k, b);
    }
    // a decoder that is dropped half way must not touch anything
    { B::BrunsliDecoder d; size_t n = r.U(b.size() + 1); std::string cp = b.substr(0, n); size_t ai = n; const uint8_t* ni = U8(cp); uint8_t ob[64]; size_t ao = 64; uint8_t* no = ob; d.Decode(&ai, &ni, &ao, &no); c.Ev("abandoned-decoders"); }
    c.Sample(k + " " + std::to_string(b.size()) + "B with every consumed buffer overwritten and freed");
  });
}

// Output is delivered as early as the input allows, and only output that is final.
PROPERTY(S05) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j; GenOptions o; std::string k, b; double p = r.D();
    if (p < 0.15) { size_t n = r.P(0.7) ? r.U(3000) : r.U(300000); j.bytes.resize(n); for (auto& x : j.bytes) x = r.U(256); Bypass(j.bytes, &b); k = "bypass"; }
    else if (p < 0.5) { o.photo = r.P(0.6); o.style = o.photo ? -1 : r.U(13); o.force_progressive = r.P(0.75) ? 0 : -1; bool big = r.P(0.4); o.fixed_w = 8 * (big ? r.R(24, 48) : r.R(4, 20)); o.fixed_h = 8 * (big ? r.R(24, 80) : r.R(8, 40)); o.max_blocks = 20000; if (big) o.style = r.P(0.5) ? 3 : o.style; o.simple_meta = true; o.legal = true; j.bytes = GenJpeg(r.Next(), o, &j.info); b = PickBrn(&r, j.bytes, &k); }
    else { j = r.P(0.004) ? HugeJpeg(&r, r.P(0.5) ? r.U(5) : 6) : PickJpeg(&r, c.thorough(), 0.05, 300); b = PickBrn(&r, j.bytes, &k); }
    if (b.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Ev("kind:" + k); c.Nontrivial(HashStr(b));
    std::vector<size_t> cuts; std::vector<Sec> v; ParseSecs(b, &v);
    if (r.P(0.4)) for (auto& e : v) { cuts.push_back(e.end); if (r.P(0.5)) cuts.push_back(e.body_begin); if (e.tag == 8) for (int q = 0; q < 20; ++q) cuts.push_back(e.body_begin + (e.end - e.body_begin) * q / 20); }
    else { size_t step = r.P(0.3) ? 1 + r.U(5) : 1 + r.U(1 + (uint32_t)b.size() / 4); if (b.size() / step > 3000) step = b.size() / 3000; for (size_t x = step; x < b.size(); x += r.P(0.5) ? step : 1 + r.U(2 * step)) cuts.push_back(x); }
    cuts.push_back(b.size()); std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); while (!cuts.empty() && cuts.back() > b.size()) cuts.pop_back();
    std::vector<size_t> ref(cuts.size()); c.Step("pinned"); size_t base = 0, rpeak = 0, peak = 0;
    if (MemTracked()) { MemReset(); base = MemNow().live; }
    if (ref_progress(U8(b), b.size(), cuts.data(), cuts.size(), ref.data()) != (int)B::BrunsliDecoder::DONE || ref.back() != j.bytes.size()) { c.Ev("pinned-fails"); return; }
    if (MemTracked()) { rpeak = MemNow().peak - base; MemReset(); base = MemNow().live; }
    c.Step("stream"); size_t early = 0; std::set<size_t> mids;
    {
      B::BrunsliDecoder dec; std::vector<uint8_t> w(1 << 16); size_t pos = 0, total = 0;
      for (size_t i = 0; i < cuts.size(); ++i) {
        std::vector<uint8_t> piece(b.begin() + pos, b.begin() + cuts[i]); pos = cuts[i]; size_t ai = piece.size(); const uint8_t* ni = piece.data(); size_t ao; B::BrunsliDecoder::Status st;
        do {
          ao = w.size(); uint8_t* no = w.data(); st = dec.Decode(&ai, &ni, &ao, &no); size_t m = w.size() - ao;
          if (total + m > j.bytes.size() || memcmp(w.data(), j.bytes.data() + total, m) != 0) { c.Violation("delivered-bytes-differ", std::to_string(total), b); return; }
          total += m;
        } while (st == B::BrunsliDecoder::NEEDS_MORE_OUTPUT);
        if (st == B::BrunsliDecoder::ERROR) { c.Violation("valid-stream-refused", "", b); return; }
        c.Ev("pieces"); if (total > 0 && pos < b.size()) { c.Ev("pieces-with-early-output"); early = total; mids.insert(total); }
        if (2 * total < ref[i] || total + 40000 < ref[i]) { c.Violation("output-held-back:" + k, std::to_string(total) + " instead of " + std::to_string(ref[i]) + " bytes after " + std::to_string(pos) + " of " + std::to_string(b.size()), b); return; }
      }
    }
    if (mids.size() > 1) c.Ev("images-seen-growing"); if (mids.size() > 2) c.Ev("images-seen-growing-twice");
    if (MemTracked()) { peak = MemNow().peak - base; c.Ev("peaks-compared"); if (peak > rpeak + rpeak / 2 + (1 << 17)) c.Violation("needs-much-more-memory", std::to_string(peak) + " instead of " + std::to_string(rpeak), b); }
    c.Sample(k + " " + std::to_string(b.size()) + "B in " + std::to_string(cuts.size()) + " pieces, " + std::to_string(early) + " of " + std::to_string(j.bytes.size()) + "B before the last one");
  });
}
