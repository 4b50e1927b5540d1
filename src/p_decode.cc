#include <dirent.h>
#include <algorithm>
#include "pool.h"

// Arbitrary input to every decoder entry point. Run under ASan+UBSan; in the
// plain build inputs sit against an inaccessible page.
std::string HostileStream(Ctx& c, Rng& r, long idx, std::string* kind) {
  auto& corp = Corpus("decode");
  double p = r.D();
  if (idx < (long)corp.size()) { *kind = "corpus"; return corp[idx]; }
  if (p < 0.2 && !corp.empty()) {
    std::string a = corp[r.U(corp.size())], b = corp[r.U(corp.size())], w; 
    if (r.P(0.5)) { *kind = "corpus+mut"; return MutateBrn(a, b, &r, &w); }
    MutBytes(&a, &r, 1 + r.U(4)); *kind = "corpus+blind"; return a;
  }
  if (p < 0.24) { std::string s(r.U(300), 0); for (auto& ch : s) ch = r.U(256); if (r.P(0.7)) s.insert(0, std::string(kSig, 6)); if (r.P(0.5)) s.insert(6 > s.size() ? 0 : 6, std::string("\x12\x08\x08\x10\x10\x10\x18\x0a\x20\x00", 10)); *kind = "random"; return s; }
  Jpg j; std::string k, b;
  if (p < 0.25) {  // entropy-coded data full of 0xFF bytes, over several output chunks
    GenOptions o; o.style = 11; o.max_blocks = 500; o.fixed_w = o.fixed_h = 8 * r.R(8, 18); o.simple_meta = true; o.force_ncomp = r.P(0.7) ? 1 : 3; o.force_progressive = r.P(0.7) ? 0 : 1; j.bytes = GenJpeg(r.Next(), o, &j.info); b = PickBrn(&r, j.bytes, &k); *kind = "full-bytes"; return b;
  }
  j = PickJpeg(&r, false, 0.1, r.P(0.8) ? 60 : 300);
  if (r.P(0.35)) { b = InconsistentBrn(&r, j.bytes, kind); if (!b.empty() && r.P(0.9)) return b; }
  b = PickBrn(&r, j.bytes, &k);
  if (b.empty()) return b;
  if (p < 0.3) { *kind = k + "+cut"; b.resize(r.U(b.size() + 1)); return b; }
  if (p < 0.33) { *kind = k; return b; }
  if (p < 0.45) { *kind = k + "+blind"; MutBytes(&b, &r, 1 + r.U(6)); return b; }
  Jpg j2 = PickJpeg(&r, false, 0, 60); std::string k2, b2 = PickBrn(&r, j2.bytes, &k2);
  std::string w; b = MutateBrn(b, b2, &r, &w); *kind = k + "+mut:" + w.substr(0, w.find(',')); return b;
}
PROPERTY(D01) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind, b = HostileStream(c, r, idx, &kind); if (kind.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Ev("kind:" + kind); c.Nontrivial(HashStr(b));
    GuardBuf g(b);
    c.Step("IsBrunsli"); bool is = B::IsBrunsli(g.p, b.size());
    c.Step("oneshot"); B::JPEGData d; int st = (int)B::BrunsliDecodeJpeg(g.p, b.size(), &d);
    c.Ev("status-" + std::to_string(st)); if (st < 0 || st > 7) c.Violation("undocumented-status", std::to_string(st), b);
    if (st == 0 && !is) c.Violation("accepted-without-signature", "", b);
    std::string o; bool w = false;
    if (st == 0) { c.Step("write"); w = Write(d, &o); c.Ev(w ? "written" : "write-refused"); }
    else if (r.P(0.2)) { c.Step("write-partial"); }
    c.Step("c-api"); std::string o2; bool ok = DecodeBrunsli(b.size(), g.p, &o2, AppendSink) == 1;
    if (ok != w) c.Violation("c-api-disagrees", "", b); else if (ok && o2 != o) c.Violation("c-api-output-disagrees", "", b);
    c.Step("estimate"); size_t est = B::BrunsliEstimateDecoderPeakMemoryUsage(g.p, b.size()); c.Ev(est ? "estimate-nonzero" : "estimate-zero");
    c.Step("stream"); Schedule s = RandomSchedule(&r, b.size(), 4096); s.scribble = true;
    auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {}); c.Ev("stream-status-" + std::to_string(res.status));
    if (res.stuck) c.Violation("decoder-makes-no-progress", s.label, b);
    c.Sample(kind + " " + std::to_string(b.size()) + "B status " + std::to_string(st) + " " + Hex(b, 24));
  });
}

// No strict prefix of a stream is a complete stream.
PROPERTY(D02) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j; GenOptions o; o.max_blocks = r.P(0.7) ? 12 : 200; o.simple_meta = true; o.tiny = r.P(0.4); o.photo = r.P(0.2);
    j.bytes = GenJpeg(r.Next(), o, &j.info); std::string k, b = PickBrn(&r, j.bytes, &k);
    if (b.empty()) { c.Ev("no-stream"); return; }
    c.evaluations++; c.Ev("kind:" + k);
    std::vector<size_t> cuts; std::vector<Sec> v; ParseSecs(b, &v);
    if (b.size() <= 1500) { for (size_t n = 0; n < b.size(); ++n) cuts.push_back(n); c.Ev("exhaustive-streams"); }
    else { for (auto& e : v) for (int d = -2; d <= 2; ++d) { cuts.push_back(e.begin + d); cuts.push_back(e.body_begin + d); cuts.push_back(e.end + d); }
      for (size_t n = 0; n < 40; ++n) cuts.push_back(b.size() - 1 - n); for (int q = 0; q < 150; ++q) cuts.push_back(r.U(b.size())); }
    for (size_t n : cuts) {
      if (n >= b.size()) continue;
      std::string p = b.substr(0, n), out; c.Input(p); c.Step("prefix"); c.Ev("prefixes"); c.Nontrivial(HashStr(p));
      int st = Decode(p, &out);
      if (st == 0) c.Violation("prefix-accepted", k + " cut " + std::to_string(n) + " of " + std::to_string(b.size()), p);
      else if (st != 7) c.Violation("prefix-not-reported-as-truncated", k + " status " + std::to_string(st) + " cut " + std::to_string(n) + " of " + std::to_string(b.size()), p);
      if (DecodeC(p, &out)) c.Violation("prefix-accepted-by-c-api", std::to_string(n), p);
      if (r.P(0.1)) { Schedule s = RandomSchedule(&r, p.size(), 4096); auto res = StreamDecode(p, s, &r, [](const std::string&, const std::string&) {}); c.Ev("stream-prefixes");
        if (res.status == 3) c.Violation("prefix-accepted-by-stream", std::to_string(n), p);
        if (res.status == 2) c.Violation("prefix-rejected-by-stream", std::to_string(n), p);
        if (j.bytes.compare(0, res.out.size(), res.out) != 0) c.Violation("partial-output-not-a-prefix", std::to_string(n), p); }
    }
    c.Sample(k + " stream of " + std::to_string(b.size()) + "B, " + std::to_string(cuts.size()) + " prefixes");
  });
}

static void Expect(Ctx& c, Rng& r, const char* rule, const std::string& b, bool accept, const std::string& want) {
  c.Input(b); c.Step(rule); c.Ev(std::string("rule:") + rule); c.Nontrivial(HashStr(b));
  std::string o; int st = Decode(b, &o);
  std::string key = std::string(rule) + (accept ? "-rejected" : "-accepted");
  if (accept ? (st != 0) : (st == 0)) { c.Violation(key, "one-shot status " + std::to_string(st), b); return; }
  if (accept && o != want) c.Violation(std::string(rule) + "-changes-output", "", b);
  bool ok = DecodeC(b, &o); if (ok != accept) c.Violation(key + "-by-c-api", "", b);
  Schedule s = RandomSchedule(&r, b.size(), want.size());
  if (want.size() > 20000) { s.in = [&b] { return b.size(); }; s.out = [] { return (size_t)65536; }; }
  auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {});
  if ((res.status == 3) != accept) c.Violation(key + "-by-stream", s.label + " status " + std::to_string(res.status), b);
  else if (accept && res.out != want) c.Violation(std::string(rule) + "-changes-streamed-output", s.label, b);
}
// Bytes after the end of a stream are never silently ignored.
PROPERTY(D03) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = PickJpeg(&r, false, 0.05, 100); std::string k, b = PickBrn(&r, j.bytes, &k); if (b.empty()) { c.Ev("no-stream"); return; }
    c.evaluations++; c.Ev("kind:" + k);
    Expect(c, r, "control", b, true, j.bytes);
    for (int q = 0; q < 4; ++q) {
      std::string t; const char* w;
      switch (r.U(6)) {
        case 0: t.assign(1, (char)r.U(256)); w = "trail-byte"; break;
        case 1: t.assign(1 + r.U(20), 0); w = "trail-zeros"; break;
        case 2: t = b; w = "trail-second-stream"; break;
        case 3: { Sec e; e.tag = r.R(10, 15); e.wire = r.P(0.5) ? 0 : 2; e.body = std::string(r.U(10), 'q'); e.value = r.U(1000); t = EmitSecs({e}); w = "trail-section"; break; }
        case 4: t.assign(1 + r.U(2000), 0); for (auto& ch : t) ch = r.U(256); w = "trail-random"; break;
        default: { std::vector<Sec> v; ParseSecs(b, &v); t = EmitSecs({v[r.U(v.size())]}); w = "trail-dup-section"; break; }
      }
      Expect(c, r, w, b + t, false, "");
      // same, but arriving in a later call
      B::BrunsliDecoder d; std::string ob(j.bytes.size() + 100, 0); size_t ai = b.size(); const uint8_t* ni = U8(b); size_t ao = ob.size(); uint8_t* no = (uint8_t*)&ob[0];
      auto st = d.Decode(&ai, &ni, &ao, &no); if (st != B::BrunsliDecoder::DONE) { if (st != B::BrunsliDecoder::NEEDS_MORE_OUTPUT) c.Violation("control-not-done", std::to_string((int)st), b); continue; }
      ai = t.size(); ni = U8(t); ao = ob.size(); no = (uint8_t*)&ob[0]; st = d.Decode(&ai, &ni, &ao, &no); c.Ev("late-trailers");
      if (st != B::BrunsliDecoder::ERROR) c.Violation("late-trailer-accepted", w, b + t);
    }
    c.Sample(k + " stream of " + std::to_string(b.size()) + "B with 4 kinds of trailing bytes");
  });
}
// Container rules.
PROPERTY(D04) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = PickJpeg(&r, false, 0.05, 60); std::string k, b = PickBrn(&r, j.bytes, &k, idx % 8 == 0);
    std::vector<Sec> v; if (b.empty() || !ParseSecs(b, &v)) { c.Ev("no-stream"); return; }
    c.evaluations++; c.Ev("kind:" + k); bool bypass = k == "bypass";
    if (b != BuildBrn(v)) { c.Violation("container-not-understood", "", b); return; }
    auto find = [](std::vector<Sec>& s, int t) { for (size_t i = 0; i < s.size(); ++i) if (s[i].tag == t) return (int)i; return -1; };
    std::vector<Sec> hd; ParseSecs(v[0].body, &hd, 0);
    auto withhdr = [&](const std::vector<Sec>& h) { auto w = v; w[0].body = EmitSecs(h); w[0].lenbytes = 0; return BuildBrn(w); };
    for (int q = 0; q < 10; ++q) {
      auto w = v; auto h = hd;
      switch (r.U(26)) {
        case 0: case 1: { if (bypass) break; Sec e; e.tag = r.R(10, 15); e.wire = r.P(0.4) ? 0 : 2; e.value = r.Next() >> (1 + r.U(63)); e.body = std::string(r.P(0.2) ? r.U(5000) : r.U(20), (char)r.U(256));
          w.insert(w.begin() + 1 + r.U(w.size() - 1), e); Expect(c, r, e.wire ? "unknown-section" : "unknown-varint", BuildBrn(w), true, j.bytes); break; }
        case 2: { Sec e; e.tag = r.R(5, 15); e.wire = r.P(0.5) ? 0 : 2; e.value = r.U(100000); e.body = std::string(r.U(30), (char)r.U(256)); h.insert(h.begin() + r.U(h.size() + 1), e); Expect(c, r, "unknown-header-item", withhdr(h), true, j.bytes); break; }
        case 3: { int i = r.U(w.size()); Sec e = w[i]; int at = i + 1 + r.U(w.size() - i); w.insert(w.begin() + at, e); Expect(c, r, "duplicate-section", BuildBrn(w), false, ""); break; }
        case 4: { int i = r.U(h.size()); Sec e = h[i]; if (r.P(0.5)) e.value += 1; h.insert(h.begin() + r.U(h.size() + 1), e); Expect(c, r, "duplicate-header-item", withhdr(h), false, ""); break; }
        case 5: { int i = r.U(w.size()); int t = w[i].tag; if (t == 3) break; w.erase(w.begin() + i); Expect(c, r, ("missing-section-" + std::to_string(t)).c_str(), BuildBrn(w), false, ""); break; }
        case 6: { int i = r.U(h.size()); if (bypass && h[i].tag != 3) break; int t = h[i].tag; h.erase(h.begin() + i); Expect(c, r, ("missing-header-item-" + std::to_string(t)).c_str(), withhdr(h), false, ""); break; }
        case 7: { // ordering
          if (bypass) { std::swap(w[0], w[1]); Expect(c, r, "wrong-order-bypass", BuildBrn(w), false, ""); break; }
          static const int bad[][2] = {{7, 6}, {7, 5}, {8, 7}, {5, 4}, {6, 4}, {3, 2}, {4, 2}}; auto p = bad[r.U(7)];
          int x = find(w, p[0]), y = find(w, p[1]); if (x < 0 || y < 0) break; Sec e = w[x]; w.erase(w.begin() + x); y = find(w, p[1]); w.insert(w.begin() + y, e);
          Expect(c, r, ("wrong-order-" + std::to_string(p[0]) + "-before-" + std::to_string(p[1])).c_str(), BuildBrn(w), false, ""); break; }
        case 8: { int i = r.U(w.size()); w[i].wire = 0; w[i].value = r.U(200); w[i].lenbytes = 0; Expect(c, r, "section-as-varint", BuildBrn(w), false, ""); break; }
        case 9: { int i = r.U(h.size()); if (bypass && h[i].tag != 3) break; h[i].wire = 2; h[i].body = std::string(r.U(4), (char)r.U(4)); h[i].lenbytes = 0; if (r.P(0.5)) std::rotate(h.begin(), h.begin() + i, h.end()); Expect(c, r, ("header-item-as-section-" + std::to_string(h.size() ? hd[i].tag : 0)).c_str(), withhdr(h), false, ""); break; }
        case 10: { std::string s = b; int i = r.U(w.size()); static const int wt[] = {1, 3, 4, 5, 6, 7}; s[v[i].begin] = v[i].tag << 3 | wt[r.U(6)]; Expect(c, r, "bad-wire-type", s, false, ""); break; }
        case 11: { std::string s = b; size_t at = v[r.U(v.size())].begin; s.insert(at, std::string(1, (char)((r.P(0.5) ? 0 : 16 + r.U(16)) << 3 | (r.P(0.5) ? 0 : 2))) + std::string(1, '\0')); Expect(c, r, "bad-tag", s, false, ""); break; }
        case 12: { int i = find(h, 3); int comp = h[i].value & 3; static const uint64_t bv[] = {3, 5, 7, 8, 9, 10, 16, 255, 1 << 20, 1u << 30, 1u << 31, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 2, 1ull << 40, 1ull << 60}; h[i].value = bv[r.U(16)] << 2 | comp; h[i].lenbytes = 0; Expect(c, r, "unsupported-version", withhdr(h), false, ""); break; }
        case 13: { if (bypass) break; int i = find(h, r.P(0.5) ? 1 : 2); uint64_t x = h[i].value; const uint64_t bv[] = {0, 65536, 65537, 1 << 20, 0x80000000ull, 0x100000001ull, 65536 + x, (1ull << 31) + x, (1ull << 32) + x, (1ull << 48) + x, (1ull << 62) + x}; h[i].value = bv[r.U(11)]; h[i].lenbytes = 0; Expect(c, r, "dimension-out-of-range", withhdr(h), false, ""); break; }
        case 14: { // body grows: nothing reads the extra bytes
          int i = r.U(w.size()); int t = w[i].tag; if (t == 2 || t == 9) break; if (t == 3 && w[i].body.empty()) break; w[i].body += std::string(t >= 7 ? 2 * (1 + r.U(3)) : 1 + r.U(4), (char)(r.P(0.5) ? 0 : r.U(256))); w[i].lenbytes = 0; Expect(c, r, ("padded-section-" + std::to_string(t)).c_str(), BuildBrn(w), false, ""); break; }
        case 15: { int i = r.U(w.size()); int m = Var(w[i].body.size()).size(); w[i].lenbytes = r.R(m, 9); Expect(c, r, "long-length-field", BuildBrn(w), true, j.bytes); break; }
        case 16: { if (bypass) { Sec e = v[1]; e.tag = r.R(3, 8); if (r.P(0.5)) w.insert(w.begin() + 1 + r.U(2), e); else { e.tag = r.R(10, 15); w.push_back(e); } Expect(c, r, "extra-section-in-bypass", BuildBrn(w), false, ""); break; }
          Sec e; e.tag = 9; e.body = j.bytes.substr(0, 100); w.insert(w.begin() + 1 + r.U(w.size() - 1), e); Expect(c, r, "original-in-regular", BuildBrn(w), false, ""); break; }
        case 18: case 19: {  // the announced size of the metadata
          int i = find(w, 3); if (bypass || i < 0) break; std::string plain; size_t p = 0; uint64_t n; int nb;
          if (w[i].body.size() <= 1 || !MetaPlain(w[i].body, &plain)) { if (w[i].body.empty()) { w[i].body = Var(r.U(3)) + BrotliPack(""); w[i].lenbytes = 0; uint64_t lie = (uint8_t)w[i].body[0]; Expect(c, r, lie ? "metadata-size-lie" : "empty-metadata-packed", BuildBrn(w), lie == 0, j.bytes); } break; }
          RdVar(w[i].body, &p, &n, &nb); static const int64_t dl[] = {-1, 1, -2, 2, 64, 65536, 1 << 20, -100}; int64_t m = r.P(0.2) ? 0 : (int64_t)n + dl[r.U(8)]; if (m < 0 || m == (int64_t)n) break;
          if (r.P(0.2)) { w[i].body = Var(n) + w[i].body.substr(p) + (r.P(0.5) ? std::string(1 + r.U(3), (char)r.U(256)) : r.P(0.5) ? BrotliPack("") : std::string(r.U(5000) + 1, 0)); w[i].lenbytes = 0; Expect(c, r, "metadata-followed-by-bytes", BuildBrn(w), false, ""); break; }
          if (r.P(0.1)) { w[i].body = std::string(1 + r.U(8), (char)(0x80 + r.U(128))); if (r.P(0.5)) w[i].body += (char)r.U(128); if (w[i].body.size() < 2) break; w[i].lenbytes = 0; Expect(c, r, "metadata-only-size", BuildBrn(w), false, ""); break; }
          if (r.P(0.8)) { w[i].body = Var(m) + w[i].body.substr(p); w[i].lenbytes = 0; Expect(c, r, "metadata-size-lie", BuildBrn(w), false, ""); }
          else { w[i].body = Var(n, r.R(1, 9)) + w[i].body.substr(p); w[i].lenbytes = 0; Expect(c, r, "metadata-size-long-form", BuildBrn(w), true, j.bytes); }
          break; }
        case 20: {  // numbers of more than nine bytes
          auto over = [&](uint64_t val) { std::string t = Var(val, 9); t.back() |= 0x80; t += std::string(r.U(3), (char)0x80) + std::string(1, r.P(0.7) ? 0 : 1 + r.U(126)); return t; };
          std::string s; const char* rule;
          if (r.P(0.5)) { size_t k = r.U(h.size() + 1); std::string e; int u = r.R(5, 15);
            if (r.P(0.5)) e = std::string(1, (char)(u << 3)) + over(r.U(300)); else e = std::string(1, (char)(u << 3 | 2)) + over(0);
            if (r.P(0.4) && k < h.size() && h[k].wire == 0) { e = std::string(1, (char)(h[k].tag << 3)) + over(h[k].value); h.erase(h.begin() + k); }
            std::vector<Sec> h1(h.begin(), h.begin() + k), h2(h.begin() + k, h.end()); w[0].body = EmitSecs(h1) + e + EmitSecs(h2); w[0].lenbytes = 0; s = BuildBrn(w); rule = "overlong-number-in-header"; }
          else { size_t k = r.U(w.size()); std::vector<Sec> w1(w.begin(), w.begin() + k), w2(w.begin() + k + 1, w.end()); std::string e;
            if (r.P(0.5) || bypass) e = std::string(1, (char)(w[k].tag << 3 | 2)) + over(w[k].body.size()) + w[k].body; else { w2.insert(w2.begin(), w[k]); if (k == 0) { w1.push_back(w[0]); w2.erase(w2.begin()); } e = std::string(1, (char)(r.R(10, 15) << 3)) + over(r.U(300)); }
            s = std::string(b, 0, 6) + EmitSecs(w1) + e + EmitSecs(w2); rule = "overlong-number"; }
          Expect(c, r, rule, s, false, ""); break; }
        case 21: {  // the last header item is longer than the header
          int u = r.R(5, 15); size_t n = r.U(r.P(0.2) ? 200 : 6), d = 1 + r.U(4); std::string body = EmitSecs(h) + (char)(u << 3 | 2) + Var(n + d) + std::string(n, (char)r.U(256));
          w[0].body = body; w[0].lenbytes = 0; std::vector<Sec> w0(w.begin(), w.begin() + 1), w1(w.begin() + 1, w.end());
          std::string fill = r.P(0.5) ? std::string(d, 0) : std::string(); Expect(c, r, "header-item-overrun", std::string(b, 0, 6) + EmitSecs(w0) + fill + EmitSecs(w1), false, ""); break; }
        case 22: {  // the announced length of a section cuts its contents
          int i = r.U(w.size()); if (w[i].body.empty()) break; size_t d = 1 + r.U(std::min<size_t>(w[i].body.size(), 4)); w[i].len_override = w[i].body.size() - d; w[i].lenbytes = 0;
          Expect(c, r, ("short-section-" + std::to_string(w[i].tag)).c_str(), BuildBrn(w), false, ""); break; }
        case 23: {  // or reaches into the next one
          int i = r.U(w.size()); size_t d = 1 + r.U(4); w[i].len_override = w[i].body.size() + d; w[i].lenbytes = 0; if (w[i].tag == 3 && w[i].body.empty()) break;
          Expect(c, r, ("long-section-" + std::to_string(w[i].tag)).c_str(), BuildBrn(w), false, ""); break; }
        case 24: {  // sampling factors
          if (bypass) break; int i = find(h, 4), n = (h[find(h, 3)].value & 3) + 1; if (i < 0) break; int q = r.U(2 * n); h[i].value |= 0xFull << (4 * q); h[i].lenbytes = 0; Expect(c, r, "sampling-out-of-range", withhdr(h), false, ""); break; }
        case 25: {  // long forms of numbers
          if (r.P(0.5)) { int i = r.U(h.size()); if (h[i].wire != 0) break; h[i].lenbytes = r.R(Var(h[i].value).size(), 9); Expect(c, r, "long-form-header-value", withhdr(h), true, j.bytes); break; }
          if (bypass) break; Sec e; e.tag = r.R(10, 15); e.wire = 0; e.value = r.Next() >> 1 >> r.U(63); e.lenbytes = 9; w.insert(w.begin() + 1 + r.U(w.size() - 1), e); Expect(c, r, "long-form-unknown-value", BuildBrn(w), true, j.bytes); break; }
        case 17: { std::string s = b; int i = r.U(6); s[i] ^= 1 << r.U(8); Expect(c, r, "bad-signature", s, false, ""); if (B::IsBrunsli(U8(s), s.size())) c.Violation("bad-signature-recognised", Hex(s), s); break; }
      }
    }
    c.Sample(k + " stream with sections " + [&] { std::string s; for (auto& e : v) s += std::to_string(e.tag) + ":" + std::to_string(e.body.size()) + " "; return s; }());
  });
}
