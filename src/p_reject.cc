// Files with exactly one fault: refused, with the code that names the fault.
#include <set>
#include "pool.h"

namespace {
typedef B::JPEGReadError Er;
struct Seg { int m; size_t pos, body, end; };  // marker at pos, contents [body, end); of a scan only the header
struct Bits {
  std::string s; uint32_t acc = 0; int n = 0;
  void Put(uint32_t v, int k) { while (k--) { acc = acc << 1 | (v >> k & 1); if (++n == 8) { s += (char)acc; if ((acc & 255) == 255) s += '\0'; acc = 0; n = 0; } } }
  void Pad() { while (n) Put(1, 1); }
};
// The segments of a file without garbage; scans' data belong to nobody.
bool Split(const std::string& b, std::vector<Seg>* out) {
  size_t p = 2;
  auto u = [&](size_t i) { return (int)(uint8_t)b[i]; };
  while (p + 2 <= b.size()) {
    if (u(p) != 0xFF) return false;
    int m = u(p + 1); if (m == 0xD9) { out->push_back({m, p, p + 2, p + 2}); return true; }
    if (m >= 0xD0 && m <= 0xD7) { out->push_back({m, p, p + 2, p + 2}); p += 2; continue; }
    if (m < 0xC0 || p + 4 > b.size()) return false;
    size_t e = p + 2 + u(p + 2) * 256 + u(p + 3); if (e > b.size()) return false;
    out->push_back({m, p, p + 4, e}); p = e;
    if (m == 0xDA) while (p + 1 < b.size() && !(u(p) == 0xFF && u(p + 1) != 0 && !(u(p + 1) >= 0xD0 && u(p + 1) <= 0xD7))) ++p;
  }
  return false;
}
std::string Name(Er e) { return std::to_string((int)e); }
struct Fault { std::string what; std::vector<Er> all, tables, header; std::string bytes; bool only_refused = false; };
// Modes that do not get to the fault have an empty list.
void Judge(Ctx& c, const Fault& f) {
  c.Input(f.bytes); c.evaluations++; c.Ev("fault:" + f.what); c.Nontrivial(HashStr(f.bytes));
  static const B::JpegReadMode modes[] = {B::JPEG_READ_ALL, B::JPEG_READ_TABLES, B::JPEG_READ_HEADER}; static const char* const names[] = {"complete", "tables", "header"};
  const std::vector<Er>* want[] = {&f.all, &f.tables, &f.header}; GuardBuf in(f.bytes);
  for (int i = 0; i < 3; ++i) {
    B::JPEGData d; c.Step((std::string("read-") + names[i] + " " + f.what).c_str()); bool ok = B::ReadJpeg(in.p, in.n, modes[i], &d);
    if (ok != (d.error == Er::OK)) { c.Violation(std::string(ok ? "accepted-with-error:" : "refused-without-reason:") + f.what, names[i], f.bytes); continue; }
    if (want[i]->empty()) continue;
    if (ok) { c.Violation("faulty-file-accepted:" + f.what, names[i], f.bytes); continue; }
    if (f.only_refused && i == 0) { c.Ev("refused"); continue; }
    bool in = false; for (Er e : *want[i]) in |= e == d.error;
    if (!in) c.Violation("other-reason:" + f.what, std::string(names[i]) + " " + Name(d.error) + " instead of " + Name((*want[i])[0]), f.bytes);
    else c.Ev(std::string("reason-given:") + names[i]);
  }
  if (!f.all.empty()) { std::string b; c.Step("encode"); if (EncodeC(f.bytes, &b)) c.Violation("faulty-file-encoded:" + f.what, "", f.bytes); }
}
std::string Be(int v) { return std::string(1, (char)(v >> 8)) + (char)v; }
std::string Segment(int m, const std::string& body) { return std::string("\xFF") + (char)m + Be((int)body.size() + 2) + body; }

// One fault in the marker segments of a generated file.
void SegmentFault(Ctx& c, Rng& r) {
  GenOptions o; o.legal = true; o.simple_meta = r.P(0.8); o.max_blocks = 60; GenInfo gi; Fault f; std::string& b = f.bytes; b = GenJpeg(r.Next(), o, &gi);
  { B::JPEGData d; if (!Read(b, &d)) { c.Ev("base-rejected"); return; } }  // judged by L02
  std::vector<Seg> s; if (!Split(b, &s)) { c.Ev("base-not-plain"); return; }
  auto u = [&](size_t i) { return (int)(uint8_t)b[i]; };
  auto pick = [&](int m) -> const Seg* { std::vector<const Seg*> v; for (auto& x : s) if (m == 0xE0 ? (x.m & 0xF0) == 0xE0 : m == 0xC0 ? x.m >= 0xC0 && x.m <= 0xC2 : x.m == m) v.push_back(&x); return v.empty() ? nullptr : v[r.U((uint32_t)v.size())]; };
  const Seg* sof = pick(0xC0); size_t P = sof->body; int nc = u(P + 5); bool prog = sof->m == 0xC2;
  auto every = [&](Er e) { f.all = f.tables = f.header = {e}; };
  auto after = [&](Er e, size_t pos) { f.all = f.tables = {e}; if (pos < sof->pos) f.header = {e}; };  // header mode stops behind the frame
  auto scan = [&](Er e) { f.all = {e}; };
  auto resize = [&](const Seg& x, int by) { int n = (int)(x.end - x.pos) - 2 + by; b[x.pos + 2] = (char)(n >> 8); b[x.pos + 3] = (char)n; };
  switch (r.U(44)) {
    case 0: f.what = "soi"; if (r.P(0.5)) { b[1] = (char)r.Pick(std::vector<int>{0xD7, 0xD9, 0xC0, 0xE0, 0x00}); every(Er::SOI_NOT_FOUND); } else { b[0] = (char)r.U(255); every(Er::MARKER_BYTE_NOT_FOUND); } break;
    case 1: f.what = "short"; b.resize(r.U(2)); every(Er::MARKER_BYTE_NOT_FOUND); break;
    case 2: f.what = "precision"; b[P] = (char)(r.P(0.5) ? r.Pick(std::vector<int>{0, 7, 9, 12, 16}) : r.U(8)); every(Er::INVALID_PRECISION); break;
    case 3: f.what = "height"; b[P + 1] = b[P + 2] = 0; every(Er::INVALID_HEIGHT); break;
    case 4: f.what = "width"; b[P + 3] = b[P + 4] = 0; every(Er::INVALID_WIDTH); break;
    case 5: f.what = "components"; b[P + 5] = (char)(r.P(0.4) ? 0 : r.P(0.5) ? 5 : 5 + r.U(251)); every(Er::INVALID_NUMCOMP); break;
    case 6: { if (nc < 2) return; f.what = "component-id"; int i = 1 + r.U(nc - 1), k = r.U(i); b[P + 6 + 3 * i] = b[P + 6 + 3 * k]; every(Er::DUPLICATE_COMPONENT_ID); break; }
    case 7: { f.what = "sampling-zero"; int i = r.U(nc); size_t q = P + 7 + 3 * i; b[q] = (char)(r.P(0.5) ? u(q) & 0xF0 : u(q) & 0x0F); every(Er::INVALID_SAMP_FACTOR); break; }
    case 8: { if (nc < 2) return; f.what = "sampling-ratio"; int i = r.U(nc), k = (i + 1 + r.U(nc - 1)) % nc, x = 2 + r.U(2), y = 5 - x; bool v = r.P(0.5);
      for (int a = 0; a < nc; ++a) b[P + 7 + 3 * a] = 0x11; b[P + 7 + 3 * i] = (char)(v ? 0x10 | x : x << 4 | 1); b[P + 7 + 3 * k] = (char)(v ? 0x10 | y : y << 4 | 1); every(Er::INVALID_SAMPLING_FACTORS); break; }
    case 9: { f.what = "too-large"; std::string w = Be(65535), h = Be(2049 + r.U(65535 - 2048)); if (r.P(0.5)) std::swap(w, h); b.replace(P + 1, 4, h + w); for (int a = 0; a < nc; ++a) b[P + 7 + 3 * a] = 0x11; every(Er::IMAGE_TOO_LARGE); break; }
    case 10: f.what = "frame-length"; resize(*sof, r.P(0.5) ? (r.P(0.5) ? 1 : -1) : r.R(2, 300)); every(Er::WRONG_MARKER_SIZE); break;
    case 11: { f.what = "second-frame"; std::string x = b.substr(sof->pos, sof->end - sof->pos); if (r.P(0.5)) x[1] = (char)(0xC0 + r.U(3)); size_t at = sof->end; for (auto& q : s) if (q.pos > sof->pos && q.m != 0xDA && r.P(0.3)) { at = q.pos; break; } b.insert(at, x); f.all = f.tables = {Er::DUPLICATE_SOF}; break; }
    case 12: { f.what = "no-frame"; bool plain = true; for (size_t i = P; i < sof->end; ++i) plain &= u(i) != 0xFF; size_t p0 = sof->pos, e0 = sof->end; if (!plain || r.P(0.5)) b.erase(p0, e0 - p0); else b[p0 + 1] = (char)r.Pick(std::vector<int>{0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF});
      f.tables = f.header = {Er::SOF_NOT_FOUND, Er::UNSUPPORTED_MARKER}; f.all = {Er::INVALID_COMPS_IN_SCAN, Er::SOF_NOT_FOUND, Er::UNSUPPORTED_MARKER}; break; }
    case 13: { f.what = "no-frame-no-scan"; std::string x; for (auto& q : s) if (q.m != 0xDA && q.pos != sof->pos && !(q.m >= 0xD0 && q.m <= 0xD7)) x += b.substr(q.pos, q.end - q.pos); b = b.substr(0, 2) + x; every(Er::SOF_NOT_FOUND); break; }
    case 14: { f.what = "no-end"; b.resize(s.back().pos + r.U(2)); f.all = f.tables = {Er::MARKER_BYTE_NOT_FOUND, Er::UNEXPECTED_EOF, Er::INVALID_SCAN}; f.only_refused = true; break; }
    case 15: { f.what = "cut"; size_t e = r.U((uint32_t)s.back().pos + 2); if (r.P(0.7)) { auto& q = s[r.U((uint32_t)s.size())]; e = q.pos + r.U(r.P(0.6) ? 5 : 60); } if (e >= s.back().pos + 2) return; b.resize(e); f.all = {Er::UNEXPECTED_EOF}; f.only_refused = true; break; }
    // quantisation
    case 16: case 17: case 18: case 19: case 20: {
      const Seg* q = pick(0xDB); if (!q) return; std::vector<size_t> t; for (size_t p = q->body; p < q->end; p += 1 + (u(p) >> 4 ? 128 : 64)) t.push_back(p); size_t p = t[r.U((uint32_t)t.size())];
      switch (r.U(5)) {
        case 0: f.what = "quant-index"; b[p] = (char)((u(p) & 0xF0) | (4 + r.U(12))); after(Er::INVALID_QUANT_TBL_INDEX, q->pos); break;
        case 1: f.what = "quant-precision"; b[p] = (char)((u(p) & 15) | (2 + r.U(14)) << 4); after(Er::INVALID_QUANT_TBL_PRECISION, q->pos); break;
        case 2: { f.what = "quant-value"; int k = r.P(0.3) ? 63 * r.U(2) : r.U(64); if (u(p) >> 4) b[p + 1 + 2 * k] = b[p + 2 + 2 * k] = 0; else b[p + 1 + k] = 0; after(Er::INVALID_QUANT_VAL, q->pos); break; }
        case 3: f.what = "quant-empty"; after(Er::EMPTY_DQT, q->pos); b.insert(q->pos, "\xFF\xDB\0\2", 4); break;
        default: f.what = "quant-length"; resize(*q, -1 - (int)r.U(10)); after(Er::WRONG_MARKER_SIZE, q->pos); break;
      }
      break; }
    case 21: { f.what = "quant-missing"; std::set<int> have; for (auto& q : s) if (q.m == 0xDB) for (size_t p = q.body; p < q.end; p += 1 + (u(p) >> 4 ? 128 : 64)) have.insert(u(p) & 15); int x = r.P(0.5) ? r.U(4) : 4 + r.U(252); if (have.count(x)) return; b[P + 8 + 3 * r.U(nc)] = (char)x; scan(Er::QUANT_TABLE_NOT_FOUND); break; }
    // Huffman tables
    case 22: case 23: case 24: case 25: case 26: case 27: {
      const Seg* q = pick(0xC4); if (!q) return; std::vector<size_t> t; for (size_t p = q->body; p < q->end;) { t.push_back(p); int n = 0; for (int i = 1; i <= 16; ++i) n += u(p + i); p += 17 + n; } size_t p = t[r.U((uint32_t)t.size())]; bool ac = u(p) & 16; int n = 0; for (int i = 1; i <= 16; ++i) n += u(p + i);
      switch (r.U(7)) {
        case 0: { f.what = "code-index"; int x; do x = r.P(0.5) ? r.U(256) : r.U(40); while (x < 4 || (x >= 16 && x < 20)); b[p] = (char)x; after(Er::INVALID_HUFFMAN_INDEX, q->pos); break; }
        case 1: { if (ac) return; f.what = "code-dc-symbols"; if (n > 13 || p + 17 + 13 > b.size()) return; b[p + 16] = (char)(u(p + 16) + 13 - n + (r.P(0.5) ? 0 : r.U(100))); after(Er::INVALID_HUFFMAN_CODE, q->pos); break; }
        case 2: { if (!ac) return; f.what = "code-ac-symbols"; for (int i = 1; i <= 16; ++i) b[p + i] = 0; b[p + 15] = (char)130; b[p + 16] = (char)(127 + r.U(100)); after(Er::INVALID_HUFFMAN_CODE, q->pos); break; }
        case 3: { if (ac || !n) return; f.what = "code-dc-value"; b[p + 17 + r.U(n)] = (char)(r.P(0.6) ? 12 : 12 + r.U(244)); after(Er::INVALID_HUFFMAN_CODE, q->pos); break; }
        case 4: { if (n < 2) return; f.what = "code-duplicate"; int x = r.U(n), y = (x + 1 + r.U(n - 1)) % n; b[p + 17 + x] = b[p + 17 + y]; after(Er::INVALID_HUFFMAN_CODE, q->pos); break; }
        case 5: {  // as many codes of one length as there are: none is left for all ones, or one more
          f.what = "code-oversubscribed"; int l = 0; while (l < 16 && (1 << l) < n) ++l; if ((1 << l) != n && r.P(0.7)) { --l; } if (l < 1 || l > 7) return; int have = 1 << l; if (have > n) return;
          for (int i = 1; i <= 16; ++i) b[p + i] = 0; b[p + l] = (char)have; b[p + 16] = (char)(n - have); after(Er::INVALID_HUFFMAN_CODE, q->pos); break; }
        default: if (r.P(0.5)) { f.what = "code-empty"; after(Er::EMPTY_DHT, q->pos); b.insert(q->pos, "\xFF\xC4\0\2", 4); } else { f.what = "code-length"; resize(*q, -1); after(Er::WRONG_MARKER_SIZE, q->pos); }
      }
      break; }
    // scan headers
    case 28: case 29: case 30: case 31: case 32: case 33: case 34: {
      const Seg* q = pick(0xDA); size_t p = q->body; int n = u(p); size_t z = p + 1 + 2 * n;
      switch (r.U(9)) {
        case 0: f.what = "scan-components"; b[p] = (char)(r.P(0.4) ? 0 : r.P(0.5) ? nc + 1 : nc + 1 + r.U(255 - nc)); scan(Er::INVALID_COMPS_IN_SCAN); break;
        case 1: { if (n < 2) return; f.what = "scan-duplicate"; int i = 1 + r.U(n - 1); b[p + 1 + 2 * i] = b[p + 1 + 2 * r.U(i)]; scan(Er::DUPLICATE_COMPONENT_ID); break; }
        case 2: { f.what = "scan-unknown"; std::set<int> ids; for (int i = 0; i < nc; ++i) ids.insert(u(P + 6 + 3 * i)); int x = r.U(256); if (ids.count(x)) return; b[p + 1 + 2 * r.U(n)] = (char)x; scan(Er::COMPONENT_NOT_FOUND); break; }
        case 3: { f.what = "scan-table"; size_t at = p + 2 + 2 * r.U(n); int x = 4 + r.U(12); b[at] = (char)(r.P(0.5) ? (u(at) & 15) | x << 4 : (u(at) & 0xF0) | x); scan(Er::INVALID_HUFFMAN_INDEX); break; }
        case 4: f.what = "scan-start"; b[z] = (char)(r.P(0.5) ? 64 : 64 + r.U(192)); scan(Er::INVALID_START_OF_SCAN); break;
        case 5: f.what = "scan-end"; if (u(z) > 0 && r.P(0.5)) b[z + 1] = (char)r.U(u(z)); else b[z + 1] = (char)(r.P(0.5) ? 64 : 64 + r.U(192)); scan(Er::INVALID_END_OF_SCAN); break;
        case 6: f.what = "scan-length"; resize(*q, r.P(0.5) ? (r.P(0.5) ? 1 : -1) : r.R(2, 300)); scan(Er::WRONG_MARKER_SIZE); break;
        case 7: { if (!prog) return; for (auto& x : s) if (x.m == 0xDA) { q = &x; break; } p = q->body; z = p + 1 + 2 * u(p); f.what = "scan-bit"; b[z + 2] = (char)(11 + r.U(5)); scan(Er::NON_REPRESENTABLE_AC_COEFF); break; }
        default: {
          f.what = "scan-no-table"; for (auto& x : s) if (x.m == 0xDA) { q = &x; break; } p = q->body; n = u(p); z = p + 1 + 2 * n;
          std::set<int> have; for (auto& x : s) if (x.m == 0xC4 && x.pos < q->pos) for (size_t a = x.body; a < x.end;) { have.insert(u(a)); int k = 0; for (int i = 1; i <= 16; ++i) k += u(a + i); a += 17 + k; }
          bool dc = u(z) == 0 && (u(z + 1) == 0 || r.P(0.5)); int x = r.U(4); if (have.count(x + (dc ? 0 : 16))) return;
          size_t at = p + 2 + 2 * r.U(n); b[at] = (char)(dc ? (u(at) & 15) | x << 4 : (u(at) & 0xF0) | x); if (!dc && r.P(0.3)) { b[z] = 0; b[z + 1] = 1; } scan(Er::HUFFMAN_TABLE_NOT_FOUND); break; }
      }
      break; }
    case 35: { const Seg* q = pick(0xDD); if (!q) return; if (r.P(0.5)) { f.what = "restart-length"; resize(*q, r.P(0.5) ? 1 : r.P(0.5) ? -1 : 2 + r.U(200)); after(Er::WRONG_MARKER_SIZE, q->pos); }
      else { f.what = "second-restart"; std::string x = b.substr(q->pos, 6); size_t at = q->end; for (auto& y : s) if (y.pos > q->pos && r.P(0.2)) { at = y.pos; break; } if (r.P(0.5)) x[5] = (char)r.U(256); after(Er::DUPLICATE_DRI, at == sof->pos ? 0 : at); b.insert(at, x); } break; }
    case 36: case 37: { f.what = "meta-length"; const Seg* q = pick(r.P(0.5) ? 0xE0 : 0xFE); if (!q) return; b[q->pos + 2] = 0; b[q->pos + 3] = (char)r.U(2); after(Er::INVALID_MARKER_LEN, q->pos); break; }
    case 38: { f.what = "meta-beyond-end"; const Seg* q = pick(r.P(0.5) ? 0xE0 : 0xFE); if (!q) return; size_t left = b.size() - q->pos - 2; if (left >= 65535) return; size_t n = r.P(0.5) ? left + 1 : left + 1 + r.U((uint32_t)(65535 - left)); b[q->pos + 2] = (char)(n >> 8); b[q->pos + 3] = (char)n; after(Er::UNEXPECTED_EOF, q->pos); break; }
    // restart markers inside scans
    case 39: case 40: {
      std::vector<size_t> at; for (auto& q : s) if (q.m == 0xDA) for (size_t p = q.end; p + 1 < b.size(); ++p) if (u(p) == 0xFF) { int m = u(p + 1); if (m >= 0xD0 && m <= 0xD7) at.push_back(p); else if (m) break; }
      if (at.empty()) return; size_t p = at[r.U((uint32_t)at.size())];
      if (r.P(0.7)) { f.what = "restart-number"; b[p + 1] = (char)(0xD0 + ((u(p + 1) + 1 + r.U(7)) & 7)); scan(Er::WRONG_RESTART_MARKER); }
      else { f.what = "restart-missing"; b.erase(p, 2); scan(Er::MARKER_BYTE_NOT_FOUND); f.only_refused = true; }
      break; }
    // order of the scans
    case 41: case 42: {
      f.what = "scan-twice"; std::vector<size_t> i; for (size_t k = 0; k < s.size(); ++k) if (s[k].m == 0xDA) i.push_back(k); size_t k = i[r.U((uint32_t)i.size())]; size_t a = s[k].pos, e = s[k + 1].pos; std::string x = b.substr(a, e - a);
      if (r.P(0.5)) b.insert(e, x); else { size_t at = s[i.back() + 1].pos; for (auto& q : s) if (q.pos > e && q.pos < at && q.m == 0xC4) return; b.insert(at, x); }
      scan(Er::OVERLAPPING_SCANS); break; }
    default: {
      if (!prog) return; f.what = "scan-order";  // the refinement of DC values before their first scan
      const Seg *first = nullptr, *fine = nullptr; size_t e = 0;
      for (size_t k = 0; k < s.size(); ++k) if (s[k].m == 0xDA) { size_t z = s[k].body + 1 + 2 * u(s[k].body); if (u(z) == 0 && u(z + 1) == 0) { if (!first && (u(z + 2) & 15) > 0 && u(z + 2) < 16) first = &s[k]; else if (first && u(z + 2) >= 16 && u(s[k].body) == u(first->body) && b[s[k].body + 1] == b[first->body + 1]) { fine = &s[k]; e = s[k + 1].pos; break; } } }
      if (!fine) return; for (auto& x : s) if (x.m == 0xDD && x.pos > first->pos) return; for (auto& x : s) if (x.m == 0xC4 && x.pos > first->pos && x.pos < fine->pos) return;
      std::string x = b.substr(fine->pos, e - fine->pos); b.insert(first->pos, x); scan(Er::INVALID_SCAN_ORDER); break; }
  }
  Judge(c, f);
}

// Small one-component files whose scans are written symbol by symbol.
struct Mini {
  int w, h, ri = 0; bool prog; std::string scans; Bits bits; int rst = 0;
  // every DC symbol has a code of 4 bits; every AC symbol but those given one of 9
  std::vector<int> ac; std::vector<int> at;
  Mini(Rng& r, bool p) : w(r.R(1, 4)), h(r.R(1, 4)), prog(p), at(256, -1) {
    for (int i = 0; i < 256; ++i) ac.push_back(i);
    for (int i = 255; i; --i) std::swap(ac[i], ac[r.U(i + 1)]);
    for (int i = 0; i < 256; ++i) at[ac[i]] = i;
  }
  void Dc(int s) { bits.Put(s, 4); }
  void Ac(int sym) { bits.Put(at[sym], 9); }
  void Value(int v, int s) { bits.Put(v >= 0 ? v : v + (1 << s) - 1, s); }
  void Restart() { bits.Pad(); bits.s += '\xFF'; bits.s += (char)(0xD0 + rst); rst = (rst + 1) & 7; }
  void Scan(int ss, int se, int ah, int al) { bits.Pad(); scans += Segment(0xDA, std::string("\1\1\0", 3) + (char)ss + (char)se + (char)(ah << 4 | al)) + bits.s; bits = Bits(); rst = 0; }
  std::string File() const {
    std::string q(64, 1), t, dc(16, 0), av; dc[3] = 12; for (int i = 0; i < 12; ++i) dc += (char)i;
    std::string a(16, 0); a[8] = (char)255; a[15] = 1; for (int i : ac) av += (char)i;  // 255 codes of 9 bits, the last one has 16
    std::string o = "\xFF\xD8"; o += Segment(0xDB, std::string(1, 0) + q); o += Segment(prog ? 0xC2 : 0xC0, std::string("\x08") + Be(h * 8) + Be(w * 8) + std::string("\1\1\x11\0", 4));
    o += Segment(0xC4, std::string(1, 0) + dc); o += Segment(0xC4, std::string("\x10") + a + av); if (ri) o += Segment(0xDD, Be(ri));
    return o + scans + "\xFF\xD9";
  }
};
int Size(int v) { v = std::abs(v); int s = 0; while (v >> s) ++s; return s; }
void ScanFault(Ctx& c, Rng& r) {
  Fault f; bool prog = r.P(0.5); Mini m(r, prog); int n = m.w * m.h, bad = r.U(n); bool fault = r.P(0.75); Er e = Er::OK; bool full = true;
  m.at[m.ac[255]] = 255 << 7;  // not used: needs 16 bits
  int never = m.ac[255];
  auto sym = [&](int x) { if (x == never) full = false; m.Ac(x); };
  auto empty = [&] { if (!prog) { m.Dc(0); sym(0); } };
  if (!prog) {
    int kind = r.U(7);
    if (kind == 0) {  // DC values reach the limits of 16 bits
      f.what = "dc-range"; m.w = r.R(5, 8); m.h = r.R(4, 6); n = m.w * m.h; int sign = r.P(0.5) ? 1 : -1, limit = sign > 0 ? 32767 : -32768, target = fault ? limit + sign * (1 + (r.P(0.5) ? 0 : r.U(1000))) : limit - sign * (int)(r.P(0.5) ? 0 : r.U(1000)), v = 0; e = Er::NON_REPRESENTABLE_DC_COEFF;
      for (int i = 0; i < n; ++i) { int d = target - v; if (std::abs(d) > 2047) d = sign * 2047; v += d; int s = Size(d); m.Dc(s); m.Value(d, s); sym(0); }
      if (v != target) return;
    } else for (int i = 0; i < n; ++i) {
      if (i != bad) { if (r.P(0.5)) { empty(); continue; } int v = r.R(1, 500) * (r.P(0.5) ? 1 : -1), s = Size(v); m.Dc(s); m.Value(v, s); for (int k = 1; k < 64;) { int run = r.U(10), s2 = 1 + r.U(8); if (k + run > 63) break; if ((run << 4 | s2) == never) break; sym(run << 4 | s2); m.Value(1 << (s2 - 1), s2); k += run + 1; if (k == 64) goto next; } sym(0); next: continue; }
      if (kind == 1) { f.what = "band"; e = Er::OUT_OF_BAND_COEFF; int k = 1; m.Dc(0);
        int last = fault ? 64 + r.U(15) : 63; while (last - k > 15) { int run = r.U(16); if (k + run > 62 || last - (k + run + 1) < 0) run = std::min(run, 62 - k); if (run < 0) run = 0; sym(run << 4 | 1); m.Value(1, 1); k += run + 1; }
        int run = last - k; sym(run << 4 | 1); m.Value(1, 1); if (!fault) continue; sym(0); }
      else if (kind == 2) { f.what = "ac-range"; e = Er::NON_REPRESENTABLE_AC_COEFF; m.Dc(0); int s = fault ? 12 + r.U(4) : 11; sym(r.U(16) << 4 | s); m.Value(1 << (s - 1), s); sym(0); }
      else if (kind == 3) { f.what = "run-in-sequential"; e = Er::EOB_RUN_TOO_LONG; m.Dc(0); if (fault) { int k = 1 + r.U(14); sym(k << 4); m.bits.Put(0, k); } else sym(0); }
      else if (kind == 4) { f.what = "dc-symbol"; e = Er::INVALID_SYMBOL; if (fault) { m.bits.Put(r.R(12, 15), 4); m.bits.Put(0, 4); sym(0); } else empty(); }
      else if (kind == 5) { f.what = "ac-symbol"; e = Er::INVALID_SYMBOL; m.Dc(0); if (fault) m.bits.Put(r.P(0.3) ? 0xFFFF : r.P(0.4) ? 0x7F81 : r.R(0x7F81, 0xFFFF), 16); else sym(0); }
      else { f.what = "data-missing"; e = Er::INVALID_SCAN; empty(); }
    }
    if (f.what == "data-missing" && fault) { m.bits.Pad(); if (m.bits.s.size() < 3 || m.bits.s.find('\xFF') != std::string::npos) return; m.bits.s.resize(m.bits.s.size() - 1 - r.U((uint32_t)m.bits.s.size() - 1)); f.only_refused = true; }
    m.Scan(0, 63, 0, 0);
  } else {
    int kind = r.U(12); int al = r.R(0, 3);
    if (kind == 0) {
      f.what = "dc-shifted-range"; e = Er::NON_REPRESENTABLE_DC_COEFF; al = r.R(1, 10); m.w = r.R(5, 8); m.h = r.R(4, 6); n = m.w * m.h; int sign = r.P(0.5) ? 1 : -1; int limit = sign > 0 ? 32767 >> al : -(32768 >> al), target = fault ? limit + sign * (1 + (r.P(0.5) ? 0 : r.U(20))) : limit - sign * (int)(r.P(0.5) ? 0 : r.U(7)), v = 0;
      for (int i = 0; i < n; ++i) { int d = target - v; if (std::abs(d) > 2047) d = sign * 2047; v += d; int s = Size(d); m.Dc(s); m.Value(d, s); }
      if (v != target) return; m.Scan(0, 0, 0, al);
    } else {
      if (r.P(0.3)) m.ri = r.R(1, n);
      int per = m.ri ? m.ri : n;
      auto border = [&](int i) { if (m.ri && i && i % m.ri == 0) m.Restart(); };
      for (int i = 0; i < n; ++i) { border(i); m.Dc(0); } m.Scan(0, 0, 0, 0);
      int ss = r.R(1, 60), se = r.R(ss, 63);
      if (kind == 1 || kind == 2) {  // runs of empty blocks must end with the interval
        f.what = m.ri ? "run-over-restart" : "run-over-end"; e = Er::EOB_RUN_TOO_LONG;
        for (int i = 0; i < n;) { border(i); int left = std::min(per - i % per, n - i), k = r.U(5); int len = (1 << k) + r.U(1 << k); bool here = fault && (i / per == bad / per);
          if (here) { len = left + 1 + (r.P(0.5) ? 0 : r.U(20)); } else if (len > left) len = left;
          k = Size(len) - 1; sym(k << 4); m.bits.Put(len - (1 << k), k); i += std::min(len, left); }
        m.Scan(ss, se, 0, 0);
      } else if (kind == 3) {
        f.what = "progressive-band"; e = Er::OUT_OF_BAND_COEFF; for (int i = 0; i < n; ++i) { border(i); if (i != bad) { sym(0); continue; }
          int last = fault ? se + 1 + r.U(3) : se, k = ss; while (last - k > 15) { sym(0xF0); k += 16; if (k > se) return; } if (last - k < 0) return; sym((last - k) << 4 | 1); m.Value(1, 1); if (fault) sym(0); }
        m.Scan(ss, se, 0, 0);
      } else if (kind == 4) {
        f.what = "shifted-range"; e = Er::NON_REPRESENTABLE_AC_COEFF; al = r.R(0, 10); for (int i = 0; i < n; ++i) { border(i); if (i != bad) { sym(0); continue; } int s = fault ? 12 - al + r.U(4) : 11 - al; if (s < 1) { sym(0); fault = false; continue; } if (s > 15) s = 15; sym(s); m.Value(1 << (s - 1), s); if (ss < se || fault) sym(0); }
        m.Scan(ss, se, 0, al);
      } else if (kind == 5) {
        f.what = "refined-size"; e = Er::INVALID_SYMBOL; for (int i = 0; i < n; ++i) { border(i); sym(0); } m.Scan(ss, se, 0, 1);
        for (int i = 0; i < n; ++i) { border(i); if (i != bad || !fault) { sym(0); continue; } sym(2 + r.U(14)); m.bits.Put(0, 16); } m.Scan(ss, se, 1, 0);
      } else if (kind == 8 || kind == 9) {  // two scans of a component that share no coefficient, or one
        f.what = "scans-overlap"; e = Er::OVERLAPPING_SCANS; ss = r.R(1, 62); se = r.R(ss, 62); int s2 = fault ? r.R(ss, se) : se + 1, e2 = r.R(s2, 63); bool turn = r.P(0.5);
        for (int k = 0; k < 2; ++k) { for (int i = 0; i < n; ++i) { border(i); sym(0); } if ((k == 0) != turn) m.Scan(ss, se, 0, r.P(0.7) ? 0 : 1); else m.Scan(s2, e2, 0, r.P(0.7) ? 0 : 1); }
      } else if (kind == 11) {  // a scan over DC and AC values has no runs
        f.what = "run-in-mixed"; e = Er::EOB_RUN_TOO_LONG; bool fine = r.P(0.6); m.scans.clear(); se = r.R(1, 63); int b = fine ? 0 : bad;
        for (int pass = 0; pass < (fine ? 2 : 1); ++pass) {
          for (int i = 0; i < n; ++i) { border(i); if (pass) m.bits.Put(r.U(2), 1); else m.Dc(0); if (i == b && pass == (fine ? 1 : 0) && fault) { int k = 1 + r.U(14); sym(k << 4); m.bits.Put(0, k); } else sym(0); }
          m.Scan(0, se, pass, fine && !pass ? 1 : 0);
        }
      } else if (kind == 10) {
        f.what = "scans-order"; e = Er::INVALID_SCAN_ORDER; al = r.R(1, 5); int bits = 0; std::vector<std::pair<int, int>> v; v.push_back({0, al}); for (int a = al - 1; a >= 0; --a) v.push_back({a + 1, a});
        if (fault) { if (r.P(0.5) || al < 2) std::swap(v[0], v[1 + r.U(al)]); else { int x = 1 + r.U(al - 1); std::swap(v[x], v[x + 1 + r.U(al - x)]); } } (void)bits;
        for (auto& q : v) { for (int i = 0; i < n; ++i) { border(i); sym(0); } m.Scan(ss, se, q.first, q.second); }
      } else if (kind == 6) {
        f.what = "refined-zeros"; e = Er::EXTRA_ZERO_RUN; ss = r.R(1, 40); se = r.R(ss + 20, 63); for (int i = 0; i < n; ++i) { border(i); sym(0); } m.Scan(ss, se, 0, 1);
        for (int i = 0; i < n; ++i) { border(i); if (i == bad) { sym(0xF0); if (!fault) { sym(0x01); m.bits.Put(r.U(2), 1); } } sym(0); } m.Scan(ss, se, 1, 0);
      } else {
        f.what = "refined-band"; e = Er::OUT_OF_BAND_COEFF; for (int i = 0; i < n; ++i) { border(i); sym(0); } m.Scan(ss, se, 0, 1);
        for (int i = 0; i < n; ++i) { border(i); if (i != bad) { sym(0); continue; } int last = fault ? se + 1 : se, k = ss; while (last - k > 15) { sym(0xF0); k += 16; } if (k > se) return; sym((last - k) << 4 | 1); m.bits.Put(r.U(2), 1); if (fault) sym(0); } m.Scan(ss, se, 1, 0);
      }
    }
  }
  if (!full) { c.Ev("symbol-not-coded"); return; }
  if (f.what == "dc-symbol" && r.P(0.3)) {  // as many Huffman tables as are possible, and none
    f.what = "tables-number"; e = Er::HUFFMAN_TABLE_ERROR; f.bytes = m.File(); size_t at = f.bytes.find("\xFF\xC4"); std::string t = Segment(0xC4, std::string("\0\1", 2) + std::string(15, 0) + (char)0), many;
    if (fault && r.P(0.3)) { f.bytes = f.bytes.substr(0, at) + "\xFF\xD9"; } else { m.bits = Bits(); m.scans.clear(); for (int i = 0; i < n; ++i) { m.Dc(0); m.Ac(0); } if (m.at[0] == 255 << 7) return; m.Scan(0, 63, 0, 0); f.bytes = m.File(); for (int i = fault ? 510 + (r.P(0.5) ? 0 : r.U(90)) : 509; i--;) many += t; f.bytes.insert(at, many); }
  } else {
    f.bytes = m.File(); size_t at = f.bytes.find("\xFF\xC4");
    if (f.what == "dc-symbol" && fault && r.P(0.2)) {  // the table in use has no codes at all
      f.what = "table-of-no-codes"; f.bytes.replace(at, 2 + 2 + 29, Segment(0xC4, std::string(17, 0)));
    } else if (r.P(0.4)) {  // an earlier table had codes for everything
      bool ac = f.what == "ac-symbol"; std::string t; int n = ac ? 255 : 11; t += ac ? (char)0x10 : (char)0; std::string k(16, 0);
      if (ac) k[7] = (char)255; else for (int i = 0; i < 11; ++i) k[i] = 1;
      t += k; for (int i = 0; i < n; ++i) t += (char)i; f.bytes.insert(at, Segment(0xC4, t)); c.Ev("table-redefined");
    }
  }
  if (fault) { f.all = {e}; Judge(c, f); return; }
  // at the border of what is allowed
  c.Input(f.bytes); c.evaluations++; c.Ev("allowed:" + f.what); c.Nontrivial(HashStr(f.bytes)); c.Step(("read " + f.what).c_str());
  B::JPEGData d; if (!Read(f.bytes, &d)) { c.Violation("allowed-file-refused:" + f.what, Name(d.error), f.bytes); return; }
  std::string z; if (!Write(d, &z) || z != f.bytes) c.Violation("allowed-file-rewritten-differently:" + f.what, "", f.bytes);
}
}  // namespace

PROPERTY(E03) {
  c.Cases([&](long, Rng& r) {
    double p = r.D();
    if (p < 0.65) SegmentFault(c, r);
    else if (p < 0.95) ScanFault(c, r);
    else { Fault f; f.what = "any"; Jpg j = PickJpeg(&r, false, 1.0, 60); f.bytes = j.bytes; if (r.P(0.3)) f.bytes = MutateJpeg(f.bytes, &r); Judge(c, f); }  // only: a reason if and only if refused
    c.Sample("case " + std::to_string(c.cur));
  });
}
