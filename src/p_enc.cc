// Reader and encoder on arbitrary bytes; agreement of the reading modes.
#include "pool.h"


std::string HostileJpeg(Ctx& c, Rng& r, long idx, std::string* kind) {
  auto& corp = Corpus("jpeg"); double p = r.D();
  if (idx < (long)corp.size()) { *kind = "corpus"; return corp[idx]; }
  if (p < 0.15 && !corp.empty()) { std::string a = corp[r.U(corp.size())]; *kind = "corpus+mut"; if (r.P(0.5)) return MutateJpeg(a, &r); MutBytes(&a, &r, 1 + r.U(4)); return a; }
  if (p < 0.18) { std::string s(r.U(400), 0); for (auto& ch : s) ch = r.P(0.2) ? 0xFF : r.U(256); if (r.P(0.8)) s.insert(0, "\xFF\xD8"); *kind = "random"; return s; }
  if (p < 0.19) { *kind = "undersampled"; return UndersampledJpeg(&r).bytes; }
  Jpg j = PickJpeg(&r, false, 0, r.P(0.8) ? 60 : 400);
  if (p < 0.28) { *kind = "cut"; j.bytes.resize(r.U(j.bytes.size() + 1)); return j.bytes; }
  if (p < 0.36) { *kind = "intact"; return j.bytes; }
  if (p < 0.5) { *kind = "blind"; MutBytes(&j.bytes, &r, 1 + r.U(5)); return j.bytes; }
  // markers moved, dropped or duplicated
  if (p < 0.65 && j.info.marks.size() > 3) {
    std::vector<std::string> seg; auto m = j.info.marks; m.push_back(j.bytes.size());
    for (size_t i = 0; i + 1 < m.size(); ++i) seg.push_back(j.bytes.substr(m[i], m[i + 1] - m[i]));
    for (int k = 1 + r.U(3); k > 0 && seg.size() > 1; --k) {
      size_t a = r.U(seg.size()), b = r.U(seg.size());
      switch (r.U(4)) { case 0: std::swap(seg[a], seg[b]); break; case 1: seg.erase(seg.begin() + a); break; case 2: seg.insert(seg.begin() + b, seg[a]); break; default: MutBytes(&seg[a], &r, 1); }
    }
    std::string s = j.bytes.substr(0, m[0]); for (auto& x : seg) s += x; *kind = "segments"; return s;
  }
  *kind = "mutated"; j.bytes = MutateJpeg(j.bytes, &r); if (r.P(0.3)) j.bytes = MutateJpeg(j.bytes, &r); return j.bytes;
}

PROPERTY(E01) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind, s = HostileJpeg(c, r, idx, &kind);
    c.Input(s); c.evaluations++; c.Ev("kind:" + kind); c.Nontrivial(HashStr(s));
    GuardBuf g(s);
    B::JPEGData d, h, t;
    c.Step("read-header"); B::ReadJpeg(g.p, s.size(), B::JPEG_READ_HEADER, &h);
    c.Step("read-tables"); B::ReadJpeg(g.p, s.size(), B::JPEG_READ_TABLES, &t);
    c.Step("read-all"); bool ok = B::ReadJpeg(g.p, s.size(), B::JPEG_READ_ALL, &d);
    c.Ev(ok ? "accepted" : "rejected:" + std::to_string((int)d.error));
    std::string brn; bool enc = false;
    if (ok) {
      c.Step("write"); std::string o; bool w = Write(d, &o); c.Ev(w && o == s ? "rewritten" : "not-rewritten");
      size_t bound = B::GetMaximumBrunsliEncodedSize(d);
      if (bound > (400u << 20)) { c.Ev("too-big-to-encode"); return; }
      d.version = r.P(0.3) ? 0 : 2; c.Step("encode"); enc = EncodeData(d, &brn); c.Ev(enc ? "encoded" : "encoder-refused");
      if (enc) { c.Step("decode"); std::string o2; int st = Decode(brn, &o2); if (st != 0 || o2 != o) { if (w) c.Violation("encoded-but-not-restored", std::to_string(st), s); } }
    }
    c.Step("c-api"); std::string o3; int rc = EncodeBrunsli(s.size(), g.p, &o3, AppendSink); if (rc != 0 && rc != 1) c.Violation("c-api-return", std::to_string(rc), s);
    if (!ok && rc) c.Violation("c-api-accepts-rejected", "", s);
    c.Step("bypass"); std::string b; size_t len = B::GetBrunsliBypassSize(s.size()); b.assign(len, 0);
    if (!B::BrunsliEncodeJpegBypass(g.p, s.size(), (uint8_t*)&b[0], &len)) c.Violation("bypass-refused", "", s);
    c.Sample(kind + " " + std::to_string(s.size()) + "B " + (ok ? "accepted" : "rejected") + " " + Hex(s, 24));
  });
}

static std::string DiffTables(const B::JPEGData& a, const B::JPEGData& t) {
  if (a.restart_interval != t.restart_interval) return "restart_interval";
  if (a.quant.size() != t.quant.size()) return "quant.size";
  for (size_t i = 0; i < a.quant.size(); ++i) if (a.quant[i].values != t.quant[i].values || a.quant[i].precision != t.quant[i].precision || a.quant[i].index != t.quant[i].index) return "quant";
  if (a.huffman_code.size() != t.huffman_code.size()) return "huffman_code.size";
  for (size_t i = 0; i < a.huffman_code.size(); ++i) { auto &x = a.huffman_code[i], &y = t.huffman_code[i]; if (x.counts != y.counts || x.slot_id != y.slot_id) return "huffman_code"; int n = 0; for (int k : x.counts) n += k; for (int k = 0; k < n; ++k) if (x.values[k] != y.values[k]) return "huffman_values"; }
  return "";
}
static std::string DiffHeader(const B::JPEGData& a, const B::JPEGData& h) {
  if (a.width != h.width || a.height != h.height) return "dimensions";
  if (a.components.size() != h.components.size()) return "components";
  for (size_t i = 0; i < a.components.size(); ++i) { auto &x = a.components[i], &y = h.components[i]; if (x.id != y.id || x.h_samp_factor != y.h_samp_factor || x.v_samp_factor != y.v_samp_factor || x.width_in_blocks != y.width_in_blocks || x.height_in_blocks != y.height_in_blocks || x.num_blocks != y.num_blocks) return "component " + std::to_string(i); }
  if (a.max_h_samp_factor != h.max_h_samp_factor || a.max_v_samp_factor != h.max_v_samp_factor || a.MCU_rows != h.MCU_rows || a.MCU_cols != h.MCU_cols) return "geometry";
  return "";
}
// The cheaper reading modes agree with the complete one.
PROPERTY(E02) {
  c.Cases([&](long idx, Rng& r) {
    std::string kind, s;
    if (r.P(0.3)) s = HostileJpeg(c, r, idx, &kind);
    else { GenOptions o; o.max_blocks = 60; o.simple_meta = r.P(0.7); o.legal = r.P(0.3); if (r.P(0.35)) o.shadow_segments = 1 + r.U(3); GenInfo gi; s = GenJpeg(r.Next(), o, &gi); kind = o.shadow_segments ? "shadow-markers" : "generated"; }
    if (r.P(0.1)) {  // a scan header whose last byte looks like the start of a marker
      size_t i = s.find("\xff\xda");
      if (i != std::string::npos && i + 4 < s.size()) { size_t e = i + 2 + (uint8_t)s[i + 2] * 256 + (uint8_t)s[i + 3]; if (e < s.size()) { s[e - 1] = (char)0xff; kind += "+ff-scan"; } }
    }
    c.Input(s); B::JPEGData a, h, t; c.Step("all");
    bool ok = Read(s, &a); c.Ev("kind:" + kind);
    c.Step("header"); bool hk = Read(s, &h, B::JPEG_READ_HEADER);
    c.Step("tables"); bool tk = Read(s, &t, B::JPEG_READ_TABLES);
    c.evaluations++;
    if (ok) {
      c.Nontrivial(HashStr(s)); c.Ev("accepted");
      if (!hk) c.Violation("header-mode-rejects-accepted", std::to_string((int)h.error), s);
      else { std::string d = DiffHeader(a, h); if (!d.empty()) c.Violation("header-mode-differs", d, s); }
      if (!tk) c.Violation("tables-mode-rejects-accepted", std::to_string((int)t.error), s);
      else { std::string d = DiffHeader(a, t); if (d.empty()) d = DiffTables(a, t); if (!d.empty()) c.Violation("tables-mode-differs", d, s); }
    } else {
      c.Ev("rejected");
      // a file without a readable header has no readable tables or contents
      if (tk && !hk) c.Violation("tables-accepted-header-rejected", "", s);
      if (tk && hk) { std::string d = DiffHeader(h, t); if (!d.empty()) c.Violation("tables-header-differ", d, s); }
    }
    for (auto* x : {&h, &t}) for (auto& k : x->components) if (!k.coeffs.empty()) { bool z = true; for (auto v : k.coeffs) z &= v == 0; if (!z) c.Violation("cheap-mode-decodes-pixels", "", s); }
    c.Sample(kind + " " + std::to_string(s.size()) + "B");
  });
}
