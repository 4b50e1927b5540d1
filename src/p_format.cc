#include "pool.h"
std::string HostileStream(Ctx& c, Rng& r, long idx, std::string* kind);

// Streams of the pinned encoder stay decodable.
PROPERTY(F01) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = idx < 28 ? SpecialJpeg(&r, SpecialOf(idx)) : idx < 42 ? HugeJpeg(&r, idx % 7) : idx == 42 && !kSanitized ? HugeJpeg(&r, 7) : idx < 49 ? BulkJpeg(&r, idx) : PickJpeg(&r, c.thorough(), 0.1); std::string b, o; c.evaluations++; c.Input(j.bytes);
    int m = r.U(16); const char* k = m < 6 ? "v2" : m < 9 ? "v0" : m < 10 ? "bypass" : "variant";
    bool ok = m < 9 ? RefEncode(j.bytes, m < 6 ? 2 : 0, &b) == 1 : m < 10 ? RefBypass(j.bytes, &b) == 1 : !(b = VariantBrn(&r, j.bytes)).empty();
    if (!ok) { c.Ev("not-encodable"); return; }
    c.Input(b); c.Ev(std::string("kind:") + k); CountFeatures(c, j); c.Nontrivial(HashStr(b));
    int st = Decode(b, &o);
    if (st) c.Violation("old-stream-rejected", std::string(k) + " status " + std::to_string(st), b);
    else if (o != j.bytes) c.Violation("old-stream-decodes-differently", k, b);
    Schedule s = RandomSchedule(&r, b.size(), j.bytes.size());
    if (j.bytes.size() < 30000) { auto res = StreamDecode(b, s, &r, [](const std::string&, const std::string&) {}); c.Ev("streamed");
      if (res.status != 3 || res.out != j.bytes) c.Violation("old-stream-streams-differently", k, b); }
    c.Sample(std::string(k) + " stream of " + std::to_string(b.size()) + "B from the pinned encoder");
  });
}
// Streams of the current encoder are readable by the pinned decoder.
PROPERTY(F02) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = idx < 28 ? SpecialJpeg(&r, SpecialOf(idx)) : idx < 42 ? HugeJpeg(&r, idx % 7) : idx == 42 && !kSanitized ? HugeJpeg(&r, 7) : idx < 49 ? BulkJpeg(&r, idx) : PickJpeg(&r, c.thorough(), 0.1); std::string b, o; c.evaluations++; c.Input(j.bytes);
    int m = r.U(10); const char* k = m < 6 ? "v2" : m < 9 ? "v0" : "bypass";
    bool ok = m < 9 ? Encode(j.bytes, &b, m < 6 ? 2 : 0) : Bypass(j.bytes, &b);
    if (!ok) { c.Ev("not-encodable"); return; }
    c.Ev(std::string("kind:") + k); CountFeatures(c, j); c.Nontrivial(HashStr(b));
    c.Step("pinned-decode"); int st = RefDecode(b, &o);
    if (st) c.Violation("new-stream-rejected-by-pinned-decoder", std::string(k) + " status " + std::to_string(st), j.bytes);
    else if (o != j.bytes) c.Violation("new-stream-decodes-differently-in-pinned-decoder", k, j.bytes);
    std::string rb; if (m < 9 && RefEncode(j.bytes, m < 6 ? 2 : 0, &rb) == 1) c.Ev(rb == b ? "identical-to-pinned" : "differs-from-pinned");
    c.Sample(std::string(k) + " stream of " + std::to_string(b.size()) + "B read by the pinned decoder");
  });
}
// The set of accepted streams and their meaning is stable.
PROPERTY(F03) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind, b = HostileStream(c, r, idx, &kind); if (kind.empty()) { c.Ev("no-stream"); return; }
    c.Input(b); c.evaluations++; c.Nontrivial(HashStr(b));
    std::string o, ro; c.Step("pinned"); int rs = RefDecode(b, &ro); c.Step("oneshot"); int st = Decode(b, &o);
    c.Ev("pinned-status-" + std::to_string(rs)); c.Ev("kind:" + kind.substr(0, kind.find(':')));
    if (rs == 0 && st != 0) c.Violation("stream-no-longer-accepted", kind + " status " + std::to_string(st), b);
    else if (rs != 0 && st == 0) c.Violation("stream-newly-accepted", kind + " pinned status " + std::to_string(rs), b);
    else if (rs == 0 && o != ro) c.Violation("stream-means-something-else", kind, b);
    else if ((rs == 7) != (st == 7)) c.Violation("truncation-verdict-changed", kind + " " + std::to_string(rs) + "->" + std::to_string(st), b);
    c.Sample(kind + " " + std::to_string(b.size()) + "B pinned status " + std::to_string(rs));
  });
}

// The coding primitives inside whole images: each side's streams are read by
// the other one (the direct monitors of these properties are in p_prim.cc).
static void Exchange(Ctx& c, long idx, Rng& r, bool extremes) {
  Jpg j; GenOptions o;
  if (extremes) { static const int st[] = {4, 11, 3, 12}; o.style = st[r.U(4)]; o.quant_extremes = r.P(0.7); o.max_blocks = r.P(0.8) ? 30 : 200; o.simple_meta = true; o.force_progressive = r.P(0.8) ? 0 : 1; j.bytes = GenJpeg(r.Next(), o, &j.info); }
  else j = r.P(0.1) ? SpecialJpeg(&r) : PickJpeg(&r, c.thorough(), 0.05, 300);
  std::string a, b, x; c.evaluations++; c.Input(j.bytes); int v = r.P(0.75) ? 2 : 0;
  if (r.P(0.4) ? RefEncode(j.bytes, v, &a) == 1 : !(a = VariantBrn(&r, j.bytes)).empty()) {
    c.Ev("pinned-to-current"); c.Nontrivial(HashStr(a)); c.Step("decode"); int st = Decode(a, &x);
    if (st || x != j.bytes) c.Violation("foreign-stream-misread", std::to_string(st), a);
  } else c.Ev("not-encodable");
  c.Step("encode");
  if (Encode(j.bytes, &b, v)) {
    c.Ev("current-to-pinned"); c.Nontrivial(HashStr(b)); c.Step("pinned-decode"); int st = RefDecode(b, &x);
    if (st || x != j.bytes) c.Violation("own-stream-misread-by-pinned-decoder", std::to_string(st), j.bytes);
  }
  if (idx % 64 == 0) c.Sample("image of " + std::to_string(j.bytes.size()) + "B exchanged with the pinned codec");
}
PROPERTY(P02) { c.Cases([&](long idx, Rng& r) { Exchange(c, idx, r, false); }); }
PROPERTY(P03) { c.Cases([&](long idx, Rng& r) { Exchange(c, idx, r, r.P(0.5)); }); }
PROPERTY(P04) { c.Cases([&](long idx, Rng& r) { Exchange(c, idx, r, r.P(0.7)); }); }
