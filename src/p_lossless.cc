#include "pool.h"

// Lossless round trip through every encoder and decoder entry point.
PROPERTY(L01) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = idx < 28 ? SpecialJpeg(&r, SpecialOf(idx)) : idx < 42 ? HugeJpeg(&r, idx % 7) : idx == 42 && !kSanitized ? HugeJpeg(&r, 7) : idx < 49 ? BulkJpeg(&r, idx) : PickJpeg(&r, c.thorough());
    c.Input(j.bytes); c.evaluations++;
    c.Step("read");
    B::JPEGData d;
    if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    int version = r.P(0.25) ? 0 : 2; d.version = version;
    c.Step("encode");
    std::string b;
    if (!EncodeData(d, &b)) { c.Ev("encoder-refused"); return; }
    c.Ev(version ? "encoded-v2" : "encoded-legacy"); c.Ev("kind:" + j.kind); CountFeatures(c, j);
    c.Nontrivial(HashStr(j.bytes));
    c.Ev("jpeg-bytes", j.bytes.size());
    std::string o;
    c.Step("decode-oneshot");
    int st = Decode(b, &o);
    if (st) c.Violation("oneshot-rejects-own-stream", "status " + std::to_string(st), j.bytes);
    else if (o != j.bytes) c.Violation("oneshot-mismatch", "sizes " + std::to_string(o.size()) + "/" + std::to_string(j.bytes.size()), j.bytes);
    if (!B::IsBrunsli(U8(b), b.size())) c.Violation("own-stream-without-signature", Hex(b), j.bytes);
    if (r.P(0.5)) {
      c.Step("capi");
      std::string b2;
      if (version == 2) { if (!EncodeC(j.bytes, &b2)) c.Violation("c-encoder-refuses", "", j.bytes); else if (b2 != b) { c.Ev("c-encoder-differs"); b = b2; } }
      if (!DecodeC(b, &o)) c.Violation("c-decoder-rejects", "", j.bytes);
      else if (o != j.bytes) c.Violation("c-decoder-mismatch", "", j.bytes);
      c.Ev("decoded:c-api");
    }
    if (j.bytes.size() < 200000) {
      c.Step("stream");
      Schedule s = RandomSchedule(&r, b.size(), j.bytes.size());
      auto res = StreamDecode(b, s, &r, [&](const std::string& k, const std::string& det) {});
      if (res.status != 3) c.Violation("stream-not-done", s.label + " status " + std::to_string(res.status), j.bytes);
      else if (res.out != j.bytes) c.Violation("stream-mismatch", s.label, j.bytes);
      c.Ev("decoded:stream"); c.Ev("stream-calls", res.calls);
    }
    c.Sample("case " + std::to_string(idx) + ": " + j.kind + " " + std::to_string(j.info.width) + "x" + std::to_string(j.info.height) + " comps " + std::to_string(j.info.ncomp) + " scans " + std::to_string(j.info.nscans) + " jpeg " + std::to_string(j.bytes.size()) + "B brn " + std::to_string(b.size()) + "B");
  });
}

// Every ordinary JPEG is accepted.
std::string HostileJpeg(Ctx& c, Rng& r, long idx, std::string* kind);
PROPERTY(L02) {
  c.Cases([&](long idx, Rng& r) {
    if (r.P(0.4)) {  // files outside the specification that could be compressed so far
      std::string kind = "unusual", s, b, d;
      if (r.P(0.004)) { s = BulkJpeg(&r, r.U(6)).bytes; kind = "bulk"; } else if (r.P(0.015)) { s = SpecialJpeg(&r, 7).bytes; kind = "many-segments"; } else if (r.P(0.6)) s = PickJpeg(&r, c.thorough(), 0.1).bytes; else s = HostileJpeg(c, r, 1 << 28, &kind);
      if (RefEncode(s, 2, &b) != 1 || RefDecode(b, &d) != 0 || d != s) { c.Ev("refused-by-published"); return; }
      c.Input(s); c.evaluations++; c.Ev("accepted-by-published:" + kind); c.Nontrivial(HashStr(s));
      B::JPEGData j;
      if (!Read(s, &j)) c.Violation("reader-no-longer-accepts", kind + " error " + std::to_string((int)j.error), s);
      else if (!EncodeData(j, &b)) c.Violation("encoder-no-longer-accepts", kind, s);
      else if (!EncodeC(s, &b)) c.Violation("c-encoder-no-longer-accepts", kind, s);
      return;
    }
    GenOptions o; o.legal = true; GenInfo gi;
    if (r.P(0.2)) { o.photo = true; }
    o.max_blocks = r.P(0.7) ? 60 : 400; o.simple_meta = r.P(0.9);
    if (r.P(0.1)) o.shadow_segments = 1 + r.U(3);
    double p = r.D();
    if (p < 0.02) { // extreme aspect / dimension limits
      o.fixed_w = r.P(0.5) ? 65535 : 65535 - r.U(20); o.fixed_h = 1 + r.U(3); if (r.P(0.5)) std::swap(o.fixed_w, o.fixed_h);
      o.max_blocks = 70000; o.force_ncomp = r.P(0.5) ? 1 : 3; gi.F("dimension-limit");
    } else if (p < 0.04) { o.big = true; o.max_blocks = c.thorough() ? 20000 : 6000; }
    if (r.P(0.1)) { o.tiny = true; o.fixed_w = o.fixed_w ? o.fixed_w : 1 + r.U(3); o.fixed_h = o.fixed_h ? o.fixed_h : 1 + r.U(3); }
    Jpg j; j.kind = "legal"; j.bytes = GenJpeg(r.Next(), o, &j.info);
    c.Input(j.bytes); c.evaluations++;
    B::JPEGData d;
    if (!Read(j.bytes, &d)) { c.Violation("reader-rejects-ordinary-jpeg", "error " + std::to_string((int)d.error), j.bytes); return; }
    if (d.error != B::JPEGReadError::OK) c.Violation("reader-ok-with-error", std::to_string((int)d.error), j.bytes);
    if (d.width != j.info.width || d.height != j.info.height || (int)d.components.size() != j.info.ncomp || (int)d.scan_info.size() != j.info.nscans)
      c.Violation("reader-wrong-frame", "", j.bytes);
    std::string b;
    if (!EncodeData(d, &b)) { c.Violation("encoder-refuses-ordinary-jpeg", "", j.bytes); return; }
    if (!EncodeC(j.bytes, &b)) c.Violation("c-encoder-refuses-ordinary-jpeg", "", j.bytes);
    CountFeatures(c, j); if (p < 0.02) c.Ev("feature:dimension-limit");
    c.Nontrivial(HashStr(j.bytes));
    c.Sample("accepted " + std::to_string(j.info.width) + "x" + std::to_string(j.info.height) + (j.info.progressive ? " progressive" : " sequential") + " comps " + std::to_string(j.info.ncomp) + " scans " + std::to_string(j.info.nscans) + " " + std::to_string(j.bytes.size()) + "B");
  });
}

// Bypass mode: any byte string survives.
PROPERTY(L03) {
  c.Cases([&](long idx, Rng& r) {
    std::string s; const char* kind;
    static const int lens[] = {0, 1, 2, 3, 5, 126, 127, 128, 129, 255, 256, 599, 600, 601, 16383, 16384, 16385, 65535, 65536};
    if (idx < 19) { kind = "boundary"; s.resize(lens[idx]); for (auto& ch : s) ch = r.U(256); }
    else if (idx == 19) { kind = "2MiB"; s.assign((1 << 21) - 2 + r.U(3), 'x'); }
    else if (idx == 20) { kind = "2MiB-more"; s.assign((1 << 21) + r.U(9), 'y'); for (int k = 0; k < 100; ++k) s[r.U(s.size())] = r.U(256); }
    else if (idx == 21 && c.thorough() && !kSanitized) { kind = "256MiB"; s.assign((1 << 28) + r.U(3), 'z'); }
    else if (r.P(0.4)) { kind = "jpeg"; s = PickJpeg(&r, false, 0.5, 200).bytes; }
    else if (r.P(0.2)) { kind = "brunsli"; s = PickJpeg(&r, false, 0, 60).bytes; std::string b; Bypass(s, &b); s = b; }
    else { kind = "random"; size_t n = r.P(0.5) ? r.U(700) : r.U(40000); s.resize(n); int k = r.U(3); for (auto& ch : s) ch = k == 0 ? r.U(256) : k == 1 ? 0 : 0xFF; if (n > 4 && r.P(0.5)) { s[0] = 0xFF; s[1] = 0xD8; s[2] = 0xFF; } }
    c.Input(s); c.evaluations++; c.Ev(std::string("kind:") + kind); c.Nontrivial(HashStr(s));
    size_t bound = B::GetBrunsliBypassSize(s.size());
    if (bound < s.size()) c.Violation("bypass-size-too-small", std::to_string(s.size()), s);
    std::string b;
    { GuardBuf g(bound); size_t len = bound; GuardBuf in(s);
      c.Step("bypass-encode");
      if (!B::BrunsliEncodeJpegBypass(in.p, s.size(), g.p, &len)) { c.Violation("bypass-refused", "len " + std::to_string(s.size()), s); return; }
      if (len > bound) c.Violation("bypass-size-exceeded", std::to_string(len), s);
      if (!g.FrontIntact()) c.Violation("bypass-underrun", "", s);
      b.assign((char*)g.p, std::min(len, bound)); }
    if (!B::IsBrunsli(U8(b), b.size())) c.Violation("bypass-without-signature", Hex(b), s);
    std::string o; c.Step("decode");
    int st = Decode(b, &o); std::string sz = s.empty() ? "-empty" : "";
    if (st) c.Violation("bypass-oneshot-rejected" + sz, "status " + std::to_string(st), s);
    else if (o != s) c.Violation("bypass-oneshot-mismatch", "", s);
    if (!DecodeC(b, &o)) c.Violation("bypass-c-rejected" + sz, "", s); else if (o != s) c.Violation("bypass-c-mismatch", "", s);
    if (idx < 19 || r.P(0.2)) {  // such an image has no regular encoding
      B::JPEGData d; std::string e; c.Step("encode-decoded");
      if ((int)B::BrunsliDecodeJpeg(U8(b), b.size(), &d) == 0) { d.version = r.P(0.5) ? d.version : r.P(0.5) ? 2 : 0;
        if (EncodeData(d, &e)) { std::string p; if (Decode(e, &p) || p != s) c.Violation("bypass-encoded-again", "", s); } else c.Ev("bypass-not-encoded-again"); }
    }
    int reps = s.size() < 5000 ? 4 : 1;
    for (int k = 0; k < reps; ++k) {
      Schedule sc = RandomSchedule(&r, b.size(), s.size()); c.Step("stream");
      if (s.size() > 100000) { sc.in = [&] { return (size_t)r.R(1, 60000); }; sc.out = sc.in; }
      auto res = StreamDecode(b, sc, &r, [](const std::string&, const std::string&) {});
      if (res.status != 3) c.Violation("bypass-stream-not-done" + sz, sc.label + " " + std::to_string(res.status), s);
      else if (res.out != s) c.Violation("bypass-stream-mismatch", sc.label, s);
      c.Ev("stream-runs");
    }
    c.Sample(std::string(kind) + " payload of " + std::to_string(s.size()) + " bytes -> " + std::to_string(b.size()));
  });
}

// Size contract of the encoder's output buffer.
// An image with the highest entropy JPEG can carry, large enough for the
// per-block part of the suggested size to dominate its fixed part.
static void NoiseAtBound(Ctx& c, Rng& r, int dim, int ncomp) {
  B::JPEGData d; d.width = d.height = dim * 8; d.version = r.P(0.5) ? 2 : 0; d.max_h_samp_factor = d.max_v_samp_factor = 1; d.MCU_rows = d.MCU_cols = dim;
  B::JPEGQuantTable q; q.values.fill(1 + r.U(3)); q.index = 0; q.is_last = true; d.quant.push_back(q);
  d.components.resize(ncomp); int style = r.U(3);
  for (int i = 0; i < ncomp; ++i) {
    auto& k = d.components[i]; k.id = i + 1; k.h_samp_factor = k.v_samp_factor = 1; k.quant_idx = 0; k.width_in_blocks = k.height_in_blocks = dim; k.num_blocks = dim * dim; k.coeffs.resize((size_t)dim * dim * 64);
    for (size_t n = 0; n < k.coeffs.size(); ++n) {
      int x; if (n % 64 == 0) x = r.R(-1000, 1000);
      else { x = r.R(-2047, 2047); if (style == 1 && r.P(0.3)) x = (x < 0 ? -1 : 1) * (1 << r.U(11)); if (style == 2 && x > -1024 && x < 1024) x = x < 0 ? x - 1023 : x + 1024; }
      k.coeffs[n] = x;
    }
  }
  B::JPEGHuffmanCode h; h.slot_id = 0; h.counts.fill(0); h.values.fill(0); h.counts[1] = h.counts[2] = 1; h.values[1] = 256; h.is_last = true; d.huffman_code.push_back(h);
  d.marker_order = {0xDB, 0xC0, 0xC4, 0xDA, 0xD9}; d.scan_info.resize(1); auto& s = d.scan_info[0];
  s.Ss = 0; s.Se = 63; s.Ah = s.Al = 0; s.num_components = ncomp; for (int i = 0; i < ncomp; ++i) { s.components[i].comp_idx = i; s.components[i].dc_tbl_idx = s.components[i].ac_tbl_idx = 0; }
  c.evaluations++; c.Step("noise-at-bound"); size_t bound = B::GetMaximumBrunsliEncodedSize(d), len = bound; GuardBuf g(bound);
  bool ok = B::BrunsliEncodeJpeg(d, g.p, &len); c.Ev("noise-blocks", (uint64_t)dim * dim * ncomp);
  std::string det = std::to_string(dim) + "x" + std::to_string(dim) + "x" + std::to_string(ncomp) + " blocks, style " + std::to_string(style) + ", bound " + std::to_string(bound);
  if (!g.FrontIntact()) c.Violation("underrun", det);
  if (!ok) { c.Violation("noise-does-not-fit-suggested-size", det); return; }
  if (len > bound) { c.Violation("len-exceeds-bound", det); return; }
  c.Ev("noise-bytes", len); c.Nontrivial(HashBytes(g.p, len)); c.Sample("noise " + det + " -> " + std::to_string(len));
  B::JPEGData e; if (B::BrunsliDecodeJpeg(g.p, len, &e) != B::BRUNSLI_OK) { c.Violation("noise-not-decodable", det); return; }
  for (int i = 0; i < ncomp; ++i) if (e.components[i].coeffs != d.components[i].coeffs) c.Violation("noise-coefficients-differ", det);
}
PROPERTY(L04) {
  c.Cases([&](long idx, Rng& r) {
    if (idx < (c.thorough() ? 40 : 4)) { NoiseAtBound(c, r, c.thorough() ? r.R(300, 800) : r.R(330, 420), idx % 4 == 3 ? 2 : 1); return; }
    if (r.P(0.35)) {  // bypass
      std::string s; size_t n = r.P(0.6) ? r.U(300) : r.U(30000); s.resize(n); for (auto& ch : s) ch = r.U(256);
      if (r.P(0.3)) s = PickJpeg(&r, false, 0.3, 60).bytes;
      c.Input(s); c.evaluations++;
      std::string full; if (!Bypass(s, &full)) { c.Violation("bypass-refused-at-bound", "", s); return; }
      std::vector<size_t> caps; for (size_t k = 0; k < 40 && k < full.size(); ++k) caps.push_back(k);
      for (int k = 0; k < 6; ++k) caps.push_back(r.U(full.size() + 1));
      caps.push_back(full.size() - 1); caps.push_back(full.size()); caps.push_back(full.size() + 1);
      for (size_t cap : caps) {
        GuardBuf g(cap); size_t len = cap; c.Step("bypass-small");
        c.Ev("bypass-capacities");
        bool ok = B::BrunsliEncodeJpegBypass(U8(s), s.size(), g.p, &len);
        if (!g.FrontIntact()) c.Violation("bypass-underrun", std::to_string(cap), s);
        if (ok) { c.Ev("fit"); if (len > cap) c.Violation("bypass-len-exceeds-buffer", std::to_string(cap), s);
          else if (std::string((char*)g.p, len) != full) c.Violation("bypass-output-depends-on-capacity", std::to_string(cap), s); }
        else { c.Ev("refused"); if (cap >= full.size() + 64) c.Violation("bypass-refused-with-room", std::to_string(cap), s); }
      }
      c.Nontrivial(HashStr(s));
      return;
    }
    Jpg j = r.P(0.03) ? UndersampledJpeg(&r) : idx < 8 ? HugeJpeg(&r, idx % 5) : idx < 14 ? BulkJpeg(&r, idx) : PickJpeg(&r, false, 0.1, 200);
    c.Input(j.bytes); c.evaluations++;
    B::JPEGData d; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    d.version = r.P(0.2) ? 0 : 2;
    size_t bound = B::GetMaximumBrunsliEncodedSize(d); std::string full;
    { GuardBuf g(bound); size_t len = bound; c.Step("encode-at-bound");
      if (!B::BrunsliEncodeJpeg(d, g.p, &len)) {
        c.Ev("encoder-refused"); std::string big(4 * bound, 0); len = big.size();
        if (B::BrunsliEncodeJpeg(d, (uint8_t*)&big[0], &len)) { big.resize(len); std::string o; if (Decode(big, &o) == 0 && o == j.bytes) c.Violation("announced-size-not-sufficient", j.kind + " " + std::to_string(bound) + " " + std::to_string(len), j.bytes); }
        else if (RefEncode(j.bytes, d.version, &big) == 1) { std::string o; if (big.size() <= bound) c.Ev("refused-at-any-size"); else if (RefDecode(big, &o) == 0 && o == j.bytes) c.Violation("announced-size-not-sufficient", j.kind + " pinned " + std::to_string(big.size()), j.bytes); }
        return; }
      if (len > bound) { c.Violation("len-exceeds-bound", "", j.bytes); return; }
      if (!g.FrontIntact()) c.Violation("underrun", "", j.bytes);
      full.assign((char*)g.p, len); c.Ev("at-bound"); }
    c.Nontrivial(HashStr(j.bytes));
    std::vector<size_t> caps;
    for (int k = 0; k < 6; ++k) caps.push_back(r.U(full.size()));
    for (int k = 0; k < 3; ++k) caps.push_back(r.U(80));
    caps.push_back(full.size() - 1 - r.U(std::min<size_t>(16, full.size() - 1))); caps.push_back(full.size()); caps.push_back(full.size() + r.U(64));
    caps.push_back(full.size() - 1); caps.push_back(0);
    for (size_t cap : caps) {
      GuardBuf g(cap); size_t len = cap; c.Step(("encode-small " + std::to_string(cap) + " of " + std::to_string(full.size())).c_str());
      c.Ev("capacities");
      bool ok = B::BrunsliEncodeJpeg(d, g.p, &len);
      if (!g.FrontIntact()) c.Violation("underrun", std::to_string(cap), j.bytes);
      if (ok) { c.Ev("fit");
        if (len > cap) c.Violation("len-exceeds-buffer", std::to_string(cap), j.bytes);
        else { std::string o, s((char*)g.p, len); if (Decode(s, &o) != 0 || o != j.bytes) c.Violation("success-with-broken-output", std::to_string(cap), j.bytes); } }
      else c.Ev("refused");
    }
    c.Sample("stream of " + std::to_string(full.size()) + "B tried with " + std::to_string(caps.size()) + " capacities");
  });
}

// Compression benefit.
static std::string WithSegments(const std::string& j, const std::vector<std::string>& parts) {
  std::string all;
  for (auto& m : parts) all += std::string("\xFF\xE5", 2) + std::string(1, (char)((m.size() + 2) >> 8)) + std::string(1, (char)((m.size() + 2) & 255)) + m;
  return j.substr(0, 2) + all + j.substr(2);
}
PROPERTY(L05) {
  uint64_t jb = 0, nb = 0, rb = 0, nsmall = 0, nall = 0, anb = 0, arb = 0;
  c.Cases([&](long idx, Rng& r) {
    GenOptions o; GenInfo gi; std::string j, b, rbs; c.evaluations++; double p = r.D(); const char* kind = "photo"; bool photo = false;
    auto& real = Corpus("jpeg");
    if (idx < (long)real.size()) { j = real[idx]; kind = "real"; }
    else if (idx == (long)real.size() && c.seed % 2) { o.photo = o.no_breaks = true; o.fixed_w = 2600; o.fixed_h = 1700; o.max_blocks = 10; j = GenJpeg(r.Next(), o, &gi); kind = "photo-large"; photo = true; }
    else if (p < 0.25) { Jpg q = PickJpeg(&r, c.thorough(), 0.1); j = q.bytes; kind = "any"; }
    else {
      o.photo = photo = true; o.max_blocks = r.P(0.2) ? 3000 : 1200; o.big = r.P(0.2);
      if (r.P(0.5)) o.force_progressive = r.P(0.5);
      if (!o.big) { o.fixed_w = r.R(120, 260); o.fixed_h = r.R(120, 260); }
      j = GenJpeg(r.Next(), o, &gi);
    }
    int version = !photo && r.P(0.2) ? 0 : 2;
    c.Input(j); bool ok = Encode(j, &b, version), rok = RefEncode(j, version, &rbs) == 1;
    if (!ok) { if (photo) c.Violation("encoder-refuses-photo", "", j); return; }
    if (!rok) return;
    c.Nontrivial(HashStr(j)); c.Ev("jpeg-bytes", j.size()); c.Ev("brunsli-bytes", b.size()); c.Ev("pinned-bytes", rbs.size()); c.Ev(std::string("kind:") + kind);
    if (b == rbs) c.Ev("identical-to-pinned");
    if (b.size() > rbs.size() * 1.01 + 48) c.Violation("compressed-worse-than-pinned", std::string(kind) + " " + std::to_string(b.size()) + " > 1.01*" + std::to_string(rbs.size()), j);
    anb += b.size(); arb += rbs.size();
    if (photo) {
      c.Ev(b.size() < j.size() ? "smaller" : "not-smaller"); if (b.size() < j.size()) nsmall++; nall++;
      jb += j.size(); nb += b.size(); rb += rbs.size();
    }
    c.Sample(std::string(kind) + " " + std::to_string(j.size()) + " -> " + std::to_string(b.size()) + " (pinned " + std::to_string(rbs.size()) + ")");
    // compressible metadata is compressed too
    if (photo && r.P(0.3)) {
      int m = r.U(4); std::vector<std::string> parts; size_t limit = 600;
      if (m == 0) { parts.assign(1, std::string(20000, 0)); for (size_t k = 0; k < parts[0].size(); ++k) parts[0][k] = "metadata text "[k % 14]; }
      else if (m == 1) { int n = r.R(10, 40); for (int k = 0; k < n; ++k) parts.push_back("<rdf:li xml:lang='x-default'>item number " + std::to_string(r.U(1000)) + "</rdf:li>"); limit = 80 + 12 * n; }
      else if (m == 2) { std::string x(r.R(30000, 65000), 0); for (auto& ch : x) ch = r.U(256); parts = {x, x, x}; limit = x.size() + x.size() / 50 + 600; }
      else { std::string x(r.R(3000, 65000), 0); for (auto& ch : x) ch = "0123456789abcdef"[r.U(16)]; limit = x.size() * 0.56 + 600; parts = {x}; }
      std::string j2 = WithSegments(j, parts), b2, rb2; c.Ev("metadata-cases"); c.Ev("metadata-case-" + std::to_string(m));
      if (!Encode(j2, &b2)) { c.Violation("encoder-refuses-photo-with-metadata", "", j2); return; }
      if (b2.size() > b.size() + limit) c.Violation("metadata-not-compressed", "kind " + std::to_string(m) + ": " + std::to_string(b.size()) + " -> " + std::to_string(b2.size()), j2);
      if (RefEncode(j2, 2, &rb2) == 1 && b2.size() > rb2.size() * 1.01 + 48) c.Violation("metadata-worse-than-pinned", "kind " + std::to_string(m) + ": " + std::to_string(b2.size()) + " > 1.01*" + std::to_string(rb2.size()), j2);
    }
  });
  c.cur = -1;
  if (nall >= 50 && nsmall * 10 < nall * 9) c.Violation("many-photos-not-smaller", std::to_string(nsmall) + " of " + std::to_string(nall));
  if (jb > 500000 && nb > 0.90 * jb) c.Violation("aggregate-saving-below-10-percent", std::to_string(nb) + "/" + std::to_string(jb));
  if (rb > 500000 && nb > 1.003 * rb) c.Violation("aggregate-worse-than-pinned", std::to_string(nb) + "/" + std::to_string(rb));
  if (arb > 500000 && anb > 1.003 * arb) c.Violation("aggregate-worse-than-pinned", std::to_string(anb) + "/" + std::to_string(arb) + " over all kinds");
}

// The JPEG writer inverts the JPEG reader, and honours its output hook.
struct HookState { std::string* out; long fail_at; int mode; long calls; bool failed; long after; };
static size_t Hook(void* v, const uint8_t* b, size_t n) {
  HookState* h = (HookState*)v;
  if (h->failed) { h->after++; return 0; }
  if (h->calls++ == h->fail_at) { h->failed = true; return h->mode == 0 ? 0 : h->mode == 1 ? n - 1 : n + 1; }
  h->out->append((const char*)b, n); return n;
}
PROPERTY(L06) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = idx < 28 ? SpecialJpeg(&r, SpecialOf(idx)) : idx < 42 ? HugeJpeg(&r, idx % 7) : idx == 42 && !kSanitized ? HugeJpeg(&r, 7) : idx < 49 ? BulkJpeg(&r, idx) : PickJpeg(&r, c.thorough(), 0.4); c.Input(j.bytes); c.evaluations++;
    B::JPEGData d; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    c.Nontrivial(HashStr(j.bytes)); CountFeatures(c, j); c.Ev("kind:" + j.kind);
    std::string o; c.Step("write");
    bool w = Write(d, &o);
    if (!w) { c.Violation("writer-refuses-parsed-jpeg", "", j.bytes); return; }
    if (o != j.bytes) { c.Violation("writer-mismatch", "", j.bytes); return; }
    std::string o2; if (!Write(d, &o2) || o2 != o) c.Violation("writer-not-repeatable", "", j.bytes);
    // count calls, then fail each of a few
    std::string t; HookState h{&t, -1, 0, 0, false, 0}; B::JPEGOutput out(Hook, &h);
    if (!B::WriteJpeg(d, out) || t != j.bytes) c.Violation("writer-hook-mismatch", "", j.bytes);
    long calls = h.calls;
    for (int k = 0; k < 3 && calls; ++k) {
      std::string u; HookState f{&u, (long)r.U(calls), (int)r.U(3), 0, false, 0}; B::JPEGOutput fo(Hook, &f);
      c.Ev("hook-faults");
      if (B::WriteJpeg(d, fo)) c.Violation("writer-ignores-hook-failure", "mode " + std::to_string(f.mode), j.bytes);
      if (j.bytes.compare(0, u.size(), u) != 0) c.Violation("writer-prefix-broken", "", j.bytes);
      if (f.after) c.Violation("writer-continues-after-failure", "", j.bytes);
    }
    c.Sample(j.kind + " " + std::to_string(j.bytes.size()) + "B rewritten in " + std::to_string(calls) + " hook calls");
  });
}

// Changes one part of the representation that no other part depends on.
static std::string EditRest(Rng* r, B::JPEGData* d) {
  switch (d->scan_info.empty() ? 2 + r->U(6) : r->U(8)) {
    case 0: {
      auto& v = d->scan_info[r->U(d->scan_info.size())].reset_points; v.clear(); long p = -1;
      for (int n = r->R(0, 40); n--;) { p += 1 + (r->Next() >> 36) % (1ull << r->R(1, 28)); if (p > (1 << 30)) break; v.push_back(p); }
      return "reset-points";
    }
    case 1: {
      auto& v = d->scan_info[r->U(d->scan_info.size())].extra_zero_runs; v.clear(); long p = -1;
      for (int n = r->R(0, 40); n--;) { p += 1 + (r->Next() >> 36) % (1ull << r->R(1, 28)); if (p > (1 << 30) || (v.empty() && p >= (1 << 28))) break; B::JPEGScanInfo::ExtraZeroRunInfo z; z.block_idx = p; z.num_extra_zero_runs = r->R(1, 4); if (!v.empty() && p - v.back().block_idx >= (1 << 28)) break; v.push_back(z); }
      return "extra-zero-runs";
    }
    case 2: {
      size_t n = r->P(0.3) && !d->padding_bits.empty() ? d->padding_bits.size() : 1 + r->U(300); d->has_zero_padding_bit = true; d->padding_bits.resize(n); bool one = r->P(0.3);
      for (auto& x : d->padding_bits) x = one || r->P(0.5);
      return "padding-bits";
    }
    case 3: {
      for (size_t i = 0; i < d->components.size(); ++i) { d->components[i].id = r->U(256); for (size_t k = 0; k < i; ++k) if (d->components[k].id == d->components[i].id) { d->components[i].id = (d->components[i].id + 1) & 255; k = -1; } }
      return "component-ids";
    }
    case 4: {
      if (d->quant.empty()) return "none";
      auto& q = d->quant[r->U(d->quant.size())]; int top = q.precision ? 65535 : 255, m = r->U(3), base = r->R(1, top), step = r->R(0, 3);
      for (int k = 0; k < 64; ++k) { int v = m == 0 ? r->R(1, top) : m == 1 ? base : base + step * k; q.values[k] = std::min(top, std::max(1, v)); }
      return "quantisation";
    }
    case 5: {
      auto& l = r->P(0.5) || d->com_data.empty() ? d->app_data : d->com_data; if (l.empty()) return "none";
      auto& v = l[r->U(l.size())]; for (size_t k = 3; k < v.size(); ++k) if (r->P(0.2)) v[k] = r->U(256);
      return "metadata";
    }
    case 6: {
      if (d->inter_marker_data.empty()) return "none";
      auto& v = d->inter_marker_data[r->U(d->inter_marker_data.size())]; v.resize(r->P(0.2) ? r->U(100000) : 1 + r->U(300)); for (auto& x : v) x = r->U(256);
      return "between-markers";
    }
    default: {
      d->tail_data.resize(r->P(0.1) ? r->U(300000) : r->U(300)); int m = r->U(3); for (auto& x : d->tail_data) x = m == 0 ? r->U(256) : m == 1 ? 0xFF : 0;
      return "tail";
    }
  }
}
// Representations that have no encoding: each of these is refused, or restored
// exactly all the same.
static std::string EditUnstorable(Rng* r, B::JPEGData* d) {
  auto& mo = d->marker_order; auto& hc = d->huffman_code; auto& q = d->quant; auto& k = d->components;
  switch (r->U(22)) {
    case 0: mo.clear(); return "no-markers";
    case 1: if (mo.empty()) return ""; mo.pop_back(); return "no-end";
    case 2: mo.insert(mo.begin() + r->U(mo.size() + 1), (uint8_t)r->U(0xC0)); return "not-a-marker";
    case 3: mo.insert(mo.begin() + r->U(mo.size()), (uint8_t)0xDA); return "scan-without-header";
    case 4: if (d->scan_info.empty()) return ""; if (r->P(0.5)) d->scan_info.pop_back(); else { auto c = d->scan_info.back(); d->scan_info.push_back(c); } return "scan-count";
    case 5: if (r->P(0.5) || q.empty()) q.clear(); else while (q.size() < 5) { auto c = q.back(); q.push_back(c); } return "quant-count";
    case 6: { if (q.size() < 2) return ""; size_t used = 0; for (auto& x : k) used |= 1u << x.quant_idx; for (size_t i = 0; i < q.size(); ++i) if (!(used >> i & 1)) { q[i].values[r->U(64)] = 0; return "quant-zero"; } return ""; }
    case 7: { if (q.empty()) return ""; auto& t = q[r->U(q.size())]; t.precision = 1; int a = r->U(2); for (int i = 0; i < 64; ++i) { int x = B::kJPEGNaturalOrder[i]; t.values[x] = (i & 1) == a ? 65535 - (r->P(0.5) ? r->U(40) : 0) : 1 + (r->P(0.5) ? r->U(40) : 0); } return "quant-steps"; }
    case 8: if (q.empty()) return ""; q.back().is_last = false; return "quant-last";
    case 9: if (hc.empty()) return ""; hc.back().is_last = false; return "code-last";
    case 10: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; h.counts[0] = 1 + r->U(3); int l = 1 + r->U(15); h.counts[l] = h.counts[l] ? 0 : 1; return "code-of-no-bits"; }
    case 11: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; for (auto& x : h.counts) x = 0; return "code-empty"; }
    case 12: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; int l = 1 + r->U(8), n = 0; for (auto& x : h.counts) n += x; int m = std::min(n, (1 << l) + (int)r->U(2)); for (auto& x : h.counts) x = 0; h.counts[l] = m; h.counts[16] += n - m; return "code-space"; }
    case 13: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; int n = 0; for (auto& x : h.counts) n += x; if (n < 1) return ""; h.values[n - 1] = r->U(256); return "code-end-missing"; }
    case 14: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; int n = 0; for (auto& x : h.counts) n += x; if (n < 3) return ""; h.values[r->U(n - 1)] = h.values[r->U(n - 1)]; return "code-value-twice"; }
    case 15: { if (hc.empty()) return ""; auto& h = hc[r->U(hc.size())]; int n = 0; for (auto& x : h.counts) n += x; if (n < 2) return ""; h.values[r->U(n - 1)] = r->P(0.5) ? 12 + r->U(244) : r->U(12); return "code-value"; }
    case 16: do d->version = r->P(0.5) ? (int)r->U(64) : 1 << r->U(31); while (d->version == 1); return "version";
    case 17: (r->P(0.5) ? d->width : d->height) = 0; return "no-size";
    case 18: if (r->P(0.5)) k.clear(); else { while (k.size() < 5) { auto c = k.back(); k.push_back(c); } } return "component-count";
    case 19: k[r->U(k.size())].quant_idx = (unsigned)q.size() + r->U(4); return "quant-index";
    case 20: { auto& v = k[r->U(k.size())].coeffs; if (v.empty()) return ""; int n = r->R(1, 6); while (n--) v[64 * r->U(v.size() / 64)] = r->P(0.5) ? r->R(-32768, 32767) : r->Pick(std::vector<int>{2047, 2048, -2047, -2048, 2049, -2049, 4095, -4096}); return "dc-value"; }
    default: { d->has_zero_padding_bit = true; d->padding_bits.resize(d->padding_bits.size() + (r->P(0.5) ? 1000 + r->U(100000) : r->U(3000))); return "padding-count"; }
  }
}
// Parsed representation survives.
PROPERTY(L07) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j = idx < 28 ? SpecialJpeg(&r, SpecialOf(idx)) : idx < 42 ? HugeJpeg(&r, idx % 7) : idx == 42 && !kSanitized ? HugeJpeg(&r, 7) : idx < 49 ? BulkJpeg(&r, idx) : PickJpeg(&r, c.thorough(), 0.15); c.Input(j.bytes); c.evaluations++;
    B::JPEGData d, e; if (!Read(j.bytes, &d)) { c.Ev("reader-rejected"); return; }
    d.version = r.P(0.25) ? 0 : 2;
    std::string b; if (!EncodeData(d, &b)) { c.Ev("encoder-refused"); return; }
    int st = (int)B::BrunsliDecodeJpeg(U8(b), b.size(), &e);
    if (st) { c.Violation("decode-failed", std::to_string(st), j.bytes); return; }
    c.Nontrivial(HashStr(j.bytes)); CountFeatures(c, j);
    uint64_t nz = 0; for (auto& k : d.components) for (auto v : k.coeffs) nz += v != 0; c.Ev("nonzero-coefficients", nz);
    std::string f = DiffData(d, e);
    if (!f.empty()) c.Violation("representation-differs:" + f.substr(0, f.find('[')), f, j.bytes);
    // an edit of the representation (other coefficients) is carried exactly too
    if (r.P(0.5) && !d.components.empty()) {
      B::JPEGData g = d; auto& k = g.components[r.U(g.components.size())];
      if (!k.coeffs.empty()) {
        for (int q = 0; q < 20; ++q) { size_t p = r.U(k.coeffs.size()); k.coeffs[p] = (p % 64) ? r.R(-1023, 1023) : r.R(-1000, 1000); }
        B::JPEGData h;
        if (EncodeData(g, &b)) { c.Ev("edited"); if (B::BrunsliDecodeJpeg(U8(b), b.size(), &h)) c.Violation("edited-decode-failed", "", b);
          else if (!(f = DiffData(g, h)).empty()) c.Violation("edited-representation-differs:" + f.substr(0, f.find('[')), f, j.bytes); }
      }
    }
    // and so are edits of the rest
    if (r.P(0.7)) {
      B::JPEGData g = d, h; std::string what = EditRest(&r, &g);
      if (!EncodeData(g, &b)) c.Ev("edit-refused:" + what);
      else { c.Ev("edited:" + what); int rc = (int)B::BrunsliDecodeJpeg(U8(b), b.size(), &h);
        if (rc) c.Violation("edited-decode-failed:" + what, std::to_string(rc), b);
        else if (!(f = DiffData(g, h)).empty()) c.Violation("edited-representation-differs:" + what + ":" + f.substr(0, f.find('[')), f, j.bytes); }
    }
    // what can not be stored is refused
    for (int n = r.R(0, 3); n--;) {
      B::JPEGData g = d, h; std::string what = EditUnstorable(&r, &g); if (what.empty()) continue;
      c.Step(("unstorable-" + what).c_str());
      if (!EncodeData(g, &b)) { c.Ev("unstorable-refused:" + what); continue; }
      c.Ev("unstorable-accepted:" + what); int rc = (int)B::BrunsliDecodeJpeg(U8(b), b.size(), &h);
      if (rc) c.Violation("unstorable-accepted:" + what, "decoder status " + std::to_string(rc), j.bytes);
      else if (!(f = DiffData(g, h)).empty()) c.Violation("unstorable-differs:" + what + ":" + f.substr(0, f.find('[')), f, j.bytes);
    }
    c.Sample(std::to_string(d.components.size()) + " components, " + std::to_string(nz) + " nonzero coefficients, " + std::to_string(d.scan_info.size()) + " scans identical");
  });
}
