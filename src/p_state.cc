// The parser behind the decoders, driven directly as the "headerless" and
// "stream" interfaces of dec/state.h describe.
#include "pool.h"
#include "dec/state.h"
#include "common/constants.h"
namespace D = brunsli::internal::dec;

struct Parsed { int status = -1; bool incomplete = false; size_t calls = 0; };
// Feeds b[from..] in chunks; each chunk is an allocation of its own.
static Parsed Feed(Ctx& c, D::State* s, B::JPEGData* j, const std::string& b, size_t from, const std::function<size_t()>& chunk) {
  Parsed p; size_t pos = from;
  while (true) {
    size_t n = std::min(std::max<size_t>(1, chunk()), b.size() - pos); uint8_t* q = (uint8_t*)malloc(n ? n : 1); memcpy(q, b.data() + pos, n);
    s->data = q; s->pos = 0; s->len = n; p.status = D::ProcessJpeg(s, j); p.calls++; pos += n;
    bool over = s->pos > s->len, left = s->pos != s->len, ptr = s->data != q || s->len != n; bool same = !memcmp(q, b.data() + pos - n, n);
    memset(q, 0xDB, n); free(q); s->data = nullptr;
    if (over) c.Violation("position-beyond-input", std::to_string(p.status), b);
    if (ptr) c.Violation("input-window-replaced", "", b);
    if (!same) c.Violation("input-modified", "", b);
    if (left && (p.status == B::BRUNSLI_NOT_ENOUGH_DATA || p.status == B::BRUNSLI_OK)) c.Violation("input-left-without-error", std::to_string(p.status), b);
    if (p.status == B::BRUNSLI_NOT_ENOUGH_DATA) { if (pos >= b.size()) return p; continue; }
    if (p.status == B::BRUNSLI_OK && pos < b.size()) continue;
    return p;
  }
}
static std::function<size_t()> Chunks(Rng& r, size_t n, std::string* label) {
  switch (r.U(6)) {
    case 0: *label = "all"; return [n] { return n + 1; };
    case 1: *label = "1"; return [] { return (size_t)1; };
    case 2: *label = "1-9"; return [&r] { return (size_t)r.R(1, 9); };
    case 3: { auto first = std::make_shared<bool>(true); size_t k = r.U((uint32_t)n + 1); *label = "two"; return [=] { bool f = *first; *first = false; return f ? k : n + 1; }; }
    case 4: *label = "590-610"; return [&r] { return (size_t)(r.P(0.5) ? r.R(590, 610) : r.R(1, 3)); };
    default: *label = "mix"; return [&r, n] { return (size_t)(r.P(0.8) ? r.R(1, 60) : 1 + r.U((uint32_t)n / 2 + 1)); };
  }
}
static const char* Name(int s) { return s == B::BRUNSLI_OK ? "ok" : s == B::BRUNSLI_NOT_ENOUGH_DATA ? "incomplete" : "invalid"; }

PROPERTY(H01) {
  c.Cases([&](long idx, Rng& r) {
    Jpg g = PickJpeg(&r, c.thorough(), 0.1, 200); std::string kind, b = PickBrn(&r, g.bytes, &kind, false); if (b.empty()) { c.Ev("no-stream"); return; }
    std::vector<Sec> v; if (!ParseSecs(b, &v) || v.empty() || v[0].tag != 2) { c.Ev("unparsed"); return; }
    size_t after = v[0].end; bool valid = true; double p = r.D();
    if (p < 0.15) { b.resize(after + r.U(b.size() - after + 1)); kind += "+cut"; valid = false; }
    else if (p < 0.4) { std::string t = b.substr(after); MutBytes(&t, &r, 1 + r.U(3)); b = b.substr(0, after) + t; kind += "+mut"; valid = false; }
    else if (p < 0.5) { std::string i = InconsistentBrn(&r, g.bytes); if (!i.empty() && ParseSecs(i, &v) && !v.empty() && v[0].tag == 2) { b = i; after = v[0].end; kind = "inconsistent"; valid = false; } }
    else if (p < 0.55) { b += std::string(1 + r.U(40), (char)r.U(256)); kind += "+tail"; valid = false; }
    c.Input(b); c.evaluations++; c.Nontrivial(HashStr(b)); c.Ev("kind:" + kind);
    // whole stream, one piece
    c.Step("whole"); D::State ws; B::JPEGData w; ws.data = U8(b); ws.len = b.size(); int st = D::ProcessJpeg(&ws, &w); c.Ev(std::string("whole-") + Name(st));
    if (valid && st != B::BRUNSLI_OK) { c.Violation("valid-stream-rejected", std::to_string(st), b); return; }
    if (kind.find("+tail") != std::string::npos && st == B::BRUNSLI_OK) c.Violation("trailing-bytes-accepted", "", b);
    auto verdict = [&](const char* what, const Parsed& q, const B::JPEGData& j, const std::string& d, bool header) {
      bool ok = st == B::BRUNSLI_OK;
      if (ok != (q.status == B::BRUNSLI_OK)) { c.Violation(std::string(what) + "-verdict-differs", d + ": whole " + Name(st) + ", " + Name(q.status), b); return; }
      if (st != B::BRUNSLI_OK && st != B::BRUNSLI_NOT_ENOUGH_DATA && q.status == B::BRUNSLI_NOT_ENOUGH_DATA) c.Violation(std::string(what) + "-wants-more-of-rejected", d, b);
      if (ok) { std::string f = DiffData(w, j); if (!f.empty()) c.Violation(std::string(what) + "-data-differs:" + f.substr(0, f.find('[')), d + ": " + f, b); if (header && w.version != j.version) c.Violation(std::string(what) + "-version-differs", d, b); }
    };
    // whole stream, in pieces; then the states stay final
    { c.Step("chunked"); D::State s; B::JPEGData j; std::string l; auto ch = Chunks(r, b.size(), &l); Parsed q = Feed(c, &s, &j, b, 0, ch); c.Ev("chunked:" + l); verdict("chunked", q, j, l, true);
      uint8_t nothing[1] = {42};
      if (q.status != B::BRUNSLI_NOT_ENOUGH_DATA) { for (int k = 0; k < 2; ++k) { s.data = nothing; s.pos = s.len = 0; int e = D::ProcessJpeg(&s, &j); if (e != q.status) c.Violation("final-state-lost", std::string(Name(q.status)) + " then " + Name(e), b); } }
      if (q.status == B::BRUNSLI_OK) { s.data = nothing; s.pos = 0; s.len = 1; int e = D::ProcessJpeg(&s, &j); if (e == B::BRUNSLI_OK || e == B::BRUNSLI_NOT_ENOUGH_DATA) c.Violation("bytes-accepted-after-end", Name(e), b); c.Ev("after-end"); }
      s.data = nothing; s.pos = 2; s.len = 1; int e = D::ProcessJpeg(&s, &j); if (e == B::BRUNSLI_OK || e == B::BRUNSLI_NOT_ENOUGH_DATA) c.Violation("bad-position-accepted", Name(e), b); }
    // the frame is known in advance
    c.Step("header"); B::JPEGData h; { D::State s; s.data = U8(b); s.len = after; int e = D::ProcessJpeg(&s, &h); if (e != B::BRUNSLI_NOT_ENOUGH_DATA || s.pos != after) { if (valid) c.Violation("header-not-parsed", std::to_string(e), b); return; } }
    auto known = [&](D::State* s, B::JPEGData* j) {
      j->version = h.version; j->width = h.width; j->height = h.height; j->components.resize(h.components.size()); j->max_h_samp_factor = j->max_v_samp_factor = 1;
      for (size_t i = 0; i < h.components.size(); ++i) { j->components[i].h_samp_factor = h.components[i].h_samp_factor; j->components[i].v_samp_factor = h.components[i].v_samp_factor; }
      if (!D::UpdateSubsamplingDerivatives(j)) { c.Violation("known-frame-refused", "", b); return false; }
      s->use_legacy_context_model = !(h.version & 2); s->stage = D::Stage::SECTION; s->tags_met = 1u << B::kBrunsliSignatureTag | 1u << B::kBrunsliHeaderTag | 1u << B::kBrunsliOriginalJpgTag; D::PrepareMeta(j, s); return true;
    };
    for (int k = 0; k < 2; ++k) {
      c.Step("headerless"); D::State s; B::JPEGData j; if (!known(&s, &j)) break; std::string l = "all"; auto ch = k ? Chunks(r, b.size() - after, &l) : std::function<size_t()>([&] { return b.size() + 1; });
      Parsed q = Feed(c, &s, &j, b, after, ch); c.Ev("headerless:" + l); verdict("headerless", q, j, l, false);
      if (q.status == B::BRUNSLI_OK) { std::string a, z; bool x = Write(w, &a), y = Write(j, &z); if (x != y || (x && a != z)) c.Violation("headerless-file-differs", l, b); if (valid && kind != "inconsistent" && (!y || z != g.bytes)) c.Violation("headerless-not-restored", l, b); c.Ev("headerless-restored"); }
    }
    // a header where none is expected is refused
    if (valid) { c.Step("second-header"); D::State s; B::JPEGData j; if (known(&s, &j)) { Parsed q = Feed(c, &s, &j, b, 6, [&] { return b.size() + 1; }); if (q.status == B::BRUNSLI_OK || q.status == B::BRUNSLI_NOT_ENOUGH_DATA) c.Violation("second-header-accepted", Name(q.status), b); } }
    // sections that are skipped leave the others alone
    if (valid) {
      c.Step("skip"); uint32_t m = 0; int q = r.U(6);
      static const int order[] = {B::kBrunsliMetaDataTag, B::kBrunsliJPEGInternalsTag, B::kBrunsliQuantDataTag, B::kBrunsliHistogramDataTag, B::kBrunsliDCDataTag, B::kBrunsliACDataTag};
      if (q == 0) m = 1u << B::kBrunsliMetaDataTag; else if (q == 1) m = ~(1u << B::kBrunsliMetaDataTag);
      else { int first = 1 + r.U(6); for (int k = first; k < 6; ++k) m |= 1u << order[k]; if (r.P(0.3)) m |= 1u << B::kBrunsliMetaDataTag; }
      D::State s; B::JPEGData j; std::string l; s.skip_tags = m & ~(1u << B::kBrunsliHeaderTag); auto ch = Chunks(r, b.size(), &l); Parsed e = Feed(c, &s, &j, b, 0, ch); std::string d = "skip " + std::to_string(m) + " " + l; c.Ev("skip:" + std::to_string(m & 0x1FF));
      if (e.status != B::BRUNSLI_OK) c.Violation("skipping-fails", d + " " + Name(e.status), b);
      else {
        auto has = [&](int t) { return !(m >> t & 1); };
        std::string f;
        if (j.width != w.width || j.height != w.height || j.components.size() != w.components.size()) f = "frame";
        if (has(B::kBrunsliMetaDataTag) ? j.app_data != w.app_data || j.com_data != w.com_data || j.tail_data != w.tail_data : !j.app_data.empty() || !j.com_data.empty() || !j.tail_data.empty()) f = "metadata";
        if (has(B::kBrunsliJPEGInternalsTag) && (j.marker_order != w.marker_order || j.inter_marker_data != w.inter_marker_data || j.huffman_code.size() != w.huffman_code.size() || j.scan_info.size() != w.scan_info.size() || j.restart_interval != w.restart_interval || j.padding_bits != w.padding_bits)) f = "internals";
        if (has(B::kBrunsliJPEGInternalsTag) && has(B::kBrunsliQuantDataTag)) { if (j.quant.size() != w.quant.size()) f = "quant"; else for (size_t i = 0; i < w.quant.size(); ++i) if (j.quant[i].values != w.quant[i].values) f = "quant"; }
        bool dc = has(B::kBrunsliDCDataTag), ac = dc && has(B::kBrunsliACDataTag);
        if (dc) for (size_t i = 0; f.empty() && i < w.components.size(); ++i) { auto& x = j.components[i].coeffs; auto& y = w.components[i].coeffs; if (x.size() != y.size()) f = "coefficients"; else if (ac ? x != y : false) f = "coefficients"; else for (size_t k = 0; k < y.size(); k += 64) if (x[k] != y[k]) { f = "dc-coefficients"; break; } }
        if (!f.empty()) c.Violation("skipping-changes-others:" + f, d, b);
      }
    }
    c.Sample(kind + ", " + std::to_string(b.size()) + " bytes, whole " + Name(st));
  });
}
