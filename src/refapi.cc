// Compiled with -Dbrunsli=brunsli_ref against /verif/ref only.
#include "refapi.h"
#include "../ref/c/enc/knobs.h"
#include <algorithm>
#include <cstring>
#include <vector>
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
namespace K = brunsli;
namespace brunsli { Knobs& TheKnobs() { static thread_local Knobs k; return k; } }
#define API extern "C" __attribute__((visibility("default")))
static size_t App(void* d, const uint8_t* b, size_t n) { ((std::string*)d)->append((const char*)b, n); return n; }
static void Give(const std::string& s, uint8_t** out, size_t* n) {
  *out = (uint8_t*)malloc(s.size() + 1); memcpy(*out, s.data(), s.size()); *n = s.size();
}
API int ref_decode(const uint8_t* in, size_t n, uint8_t** out, size_t* out_n) {
  K::JPEGData jpg;
  int st = (int)K::BrunsliDecodeJpeg(in, n, &jpg);
  if (st != 0) return st;
  std::string s; K::JPEGOutput o(App, &s);
  if (!K::WriteJpeg(jpg, o)) return 100;
  Give(s, out, out_n);
  return 0;
}
API int ref_encode(const uint8_t* in, size_t n, int version, uint8_t** out, size_t* out_n) {
  K::JPEGData jpg;
  if (!K::ReadJpeg(in, n, K::JPEG_READ_ALL, &jpg)) return -1;
  jpg.version = version;
  size_t len = K::GetMaximumBrunsliEncodedSize(jpg);
  std::string s(len + 65536, 0);
  if (!K::BrunsliEncodeJpeg(jpg, (uint8_t*)&s[0], &len)) return 0;
  s.resize(len); Give(s, out, out_n);
  return 1;
}
API int ref_bypass(const uint8_t* in, size_t n, uint8_t** out, size_t* out_n) {
  size_t len = K::GetBrunsliBypassSize(n);
  std::string s(len + 64, 0);
  if (!K::BrunsliEncodeJpegBypass(in, n, (uint8_t*)&s[0], &len)) return 0;
  s.resize(len); Give(s, out, out_n);
  return 1;
}
// A well-formed stream whose content is inconsistent: the parsed JPEG is
// changed in a few fields before it is encoded.
namespace {
struct R {
  uint64_t s;
  uint64_t Next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  size_t U(size_t n) { return n ? Next() % n : 0; }
  int In(int a, int b) { return a + (int)U(b - a + 1); }
  bool P(int percent) { return (int)U(100) < percent; }
};
int AnyCoeff(R& r) {
  static const int v[] = {0, 1, -1, 2, -2, 1023, -1023, 1024, -1024, 2047, -2047, 2048, -2048, 4095, -4095};
  return r.P(60) ? v[r.U(15)] : r.In(-2047, 2047);
}
// A distance that takes block positions towards and beyond the limit of 2^30.
std::vector<int> Far(R& r, int from) {
  std::vector<int> v; int64_t last = from;
  for (int64_t p = from;;) {
    p += r.P(60) ? (1 << 28) - r.In(1, 3) : r.In(1 << 26, (1 << 28) - 1);
    if (r.P(5) || v.size() > 20) return v;
    int64_t limit = (1 << 30) + r.In(-1, 1);
    if (r.P(80) && p > limit && last < limit && last + (1 << 28) - 1 >= limit) p = limit;
    last = p;
    v.push_back((int)(uint32_t)p);  // differences are taken modulo 2^32
    if (p == limit && r.P(60)) return v;
  }
}
void Scan(K::JPEGData* j, R& r) {
  if (j->scan_info.empty()) return;
  auto& s = j->scan_info[r.U(j->scan_info.size())];
  int blocks = 0; for (auto& c : j->components) blocks += c.num_blocks;
  switch (r.U(9)) {
    case 0: s.Ss = r.P(50) ? r.U(3) : r.U(64); break;
    case 1: s.Se = r.P(50) ? 63 - r.U(3) : r.U(64); break;
    case 2: s.Ah = r.U(r.P(80) ? 4 : 16); break;
    case 3: s.Al = r.U(r.P(80) ? 4 : 16); break;
    case 4: { size_t n = r.In(1, 4); for (size_t i = s.num_components; i < n; ++i) { s.components[i].comp_idx = r.U(4); s.components[i].dc_tbl_idx = r.U(4); s.components[i].ac_tbl_idx = r.U(4); } s.num_components = n; break; }
    case 5: s.components[r.U(s.num_components)].comp_idx = r.U(r.P(70) ? j->components.size() : 4); break;
    case 6: { auto& c = s.components[r.U(s.num_components)]; (r.P(50) ? c.dc_tbl_idx : c.ac_tbl_idx) = r.U(4); break; }
    case 7: { std::vector<int> v = s.reset_points; if (r.P(30)) v.clear(); for (size_t n = r.U(4); n--;) v.push_back(r.P(90) ? r.U(blocks + 2) : r.U(1 << 26)); std::vector<bool> seen; std::vector<int> o;
      for (size_t i = 0; i < v.size(); ++i) for (size_t k = i + 1; k < v.size(); ++k) if (v[k] < v[i]) std::swap(v[i], v[k]);
      for (int x : v) if (o.empty() || x > o.back()) o.push_back(x);
      if (r.P(15)) for (int p : Far(r, o.empty() ? 0 : o.back())) o.push_back(p);
      s.reset_points = o; break; }
    case 8: { auto v = s.extra_zero_runs; if (r.P(30)) v.clear(); for (size_t n = r.U(3); n--;) { K::JPEGScanInfo::ExtraZeroRunInfo e; e.block_idx = r.P(90) ? r.U(blocks + 2) : r.U(1 << 26); e.num_extra_zero_runs = r.P(90) ? r.In(1, 4) : r.In(1, 60); v.push_back(e); }
      for (size_t i = 0; i < v.size(); ++i) for (size_t k = i + 1; k < v.size(); ++k) if (v[k].block_idx < v[i].block_idx) std::swap(v[i], v[k]);
      decltype(v) o; for (auto& e : v) if (o.empty() || e.block_idx > o.back().block_idx) o.push_back(e);
      if (r.P(15)) for (int p : Far(r, o.empty() ? 0 : o.back().block_idx)) { K::JPEGScanInfo::ExtraZeroRunInfo e; e.block_idx = p; e.num_extra_zero_runs = r.In(1, 3); o.push_back(e); }
      s.extra_zero_runs = o; break; }
  }
}
void Markers(K::JPEGData* j, R& r) {
  auto& m = j->marker_order;
  static const uint8_t known[] = {0xc0, 0xc1, 0xc2, 0xc4, 0xd0, 0xd1, 0xd7, 0xda, 0xdb, 0xdd, 0xe0, 0xe1, 0xe2, 0xec, 0xee, 0xfe, 0xff, 0xd9, 0xd8, 0xc3, 0xc8, 0xcc, 0xdc, 0xf0};
  size_t i = r.U(m.size() - 1);
  if (m.size() > 1 && r.P(30)) {
    uint8_t x = m[i]; m.erase(m.begin() + i);
    if (x == 0xda && !j->scan_info.empty()) j->scan_info.erase(j->scan_info.begin() + r.U(j->scan_info.size()));
  } else if (m.size() > 2 && r.P(45)) {
    std::swap(m[i], m[r.U(m.size() - 1)]);
  } else if (r.P(85)) {
    uint8_t x = r.P(50) ? m[i] : known[r.U(r.P(85) ? 17 : 24)];
    m.insert(m.begin() + i, x);
    if (x == 0xda && !j->scan_info.empty() && r.P(95)) { auto s = j->scan_info[r.U(j->scan_info.size())]; j->scan_info.push_back(s); }
    if (r.P(70)) {
      if ((x & 0xf0) == 0xe0) j->app_data.push_back(std::vector<uint8_t>{x, 0, 5, 1, 2, 3});
      if (x == 0xfe) j->com_data.push_back(std::vector<uint8_t>{x, 0, 3, 9});
      if (x == 0xff) j->inter_marker_data.push_back(std::vector<uint8_t>(r.U(5), 7));
    }
  } else {
    m[i] = 0xc0 + r.U(64);
  }
}
void Huffman(K::JPEGData* j, R& r) {
  auto& h = j->huffman_code; if (h.empty()) return;
  auto& x = h[r.U(h.size())];
  switch (r.U(7)) {
    case 0: x.slot_id = r.U(4) | (r.P(50) ? 16 : 0); break;
    case 1: x.slot_id = (x.slot_id & 16) | r.U(4); break;
    case 2: if (h.size() > 1) { h.erase(h.begin() + r.U(h.size())); h.back().is_last = true; } break;
    case 3: { auto c = x; h.insert(h.begin() + r.U(h.size()), c); break; }
    case 4: x.is_last = !x.is_last; h.back().is_last = true; break;
    case 5: case 6: {  // another symbol, or another shape
      int n = 0; for (int c : x.counts) n += c;
      if (n < 3) break;
      int a = r.U(n - 1), b = r.U(n - 1); 
      if (r.P(50)) std::swap(x.values[a], x.values[b]);
      else if (x.slot_id >= 16) { int v = r.U(256); bool dup = false; for (int i = 0; i < n; ++i) dup |= x.values[i] == v; if (!dup) x.values[a] = v; }
      if (r.P(30)) { int l = r.In(1, 15); if (x.counts[l] > 0) { --x.counts[l]; ++x.counts[l + 1]; } }
      break; }
  }
}
void Tables(K::JPEGData* j, R& r) {
  auto& q = j->quant;
  switch (r.U(6)) {
    case 0: q[r.U(q.size())].index = r.U(4); break;
    case 1: q[r.U(q.size())].precision = r.P(70) ? r.U(2) : r.U(16); break;
    case 2: { auto& t = q[r.U(q.size())]; t.is_last = !t.is_last; q.back().is_last = true; break; }
    case 3: q[r.U(q.size())].values[r.U(64)] = r.P(70) ? r.In(1, 255) : r.In(1, 65535); break;
    case 4: if (q.size() < 4) { auto t = q[r.U(q.size())]; t.index = r.U(4); q.push_back(t); q.back().is_last = true; } break;
    case 5: j->components[r.U(j->components.size())].quant_idx = r.U(q.size()); break;
  }
}
void Coefficients(K::JPEGData* j, R& r) {
  auto& c = j->components[r.U(j->components.size())]; if (c.coeffs.empty()) return;
  for (int n = 1 << r.U(7); n--;) {
    size_t i = r.P(30) ? r.U(c.coeffs.size()) & ~size_t(63) : r.U(c.coeffs.size());
    int v = AnyCoeff(r); if (r.P(60)) v = std::max(-1023, std::min(1023, v)); if (i & 63) v = std::max(-2047, std::min(2047, v)); 
    c.coeffs[i] = v;
  }
}
void Geometry(K::JPEGData* j, R& r) {
  int n = r.P(60) ? (int)j->components.size() : r.In(1, 4);
  while ((int)j->components.size() > n) j->components.pop_back();
  while ((int)j->components.size() < n) { K::JPEGComponent c; c.id = 10 + j->components.size(); c.quant_idx = r.U(j->quant.size()); j->components.push_back(c); }
  int mh = 1, mv = 1;
  for (auto& c : j->components) {
    if (r.P(60)) { c.h_samp_factor = r.In(1, r.P(80) ? 4 : 15); c.v_samp_factor = r.In(1, r.P(80) ? 4 : 15); }
    mh = std::max(mh, c.h_samp_factor); mv = std::max(mv, c.v_samp_factor);
  }
  if (r.P(50)) j->width = r.In(1, 70);
  if (r.P(50)) j->height = r.In(1, 70);
  if (j->width > 400 || j->height > 400) { j->width = std::min(j->width, 90); j->height = std::min(j->height, 90); }
  j->max_h_samp_factor = mh; j->max_v_samp_factor = mv;
  j->MCU_cols = (j->width + mh * 8 - 1) / (mh * 8); j->MCU_rows = (j->height + mv * 8 - 1) / (mv * 8);
  for (auto& c : j->components) {
    c.width_in_blocks = j->MCU_cols * c.h_samp_factor; c.height_in_blocks = j->MCU_rows * c.v_samp_factor; c.num_blocks = c.width_in_blocks * c.height_in_blocks;
    size_t want = size_t(c.num_blocks) * 64; bool keep = r.P(50);
    if (!keep) c.coeffs.clear();
    c.coeffs.resize(want);
  }
}
void Rest(K::JPEGData* j, R& r) {
  switch (r.U(9)) {
    case 0: if (!j->padding_bits.empty()) j->padding_bits.resize(r.U(j->padding_bits.size())); j->has_zero_padding_bit = true; break;
    case 1: j->has_zero_padding_bit = true; for (size_t n = 1 + r.U(20); n--;) j->padding_bits.push_back(r.U(2)); break;
    case 2: j->has_zero_padding_bit = !j->has_zero_padding_bit; break;
    case 3: j->restart_interval = r.P(70) ? r.U(8) : r.U(65536); break;
    case 4: if (!j->app_data.empty()) { auto& a = j->app_data[r.U(j->app_data.size())]; if (!a.empty()) { if (r.P(50)) a[0] = r.P(80) ? 0xe0 + r.U(16) : r.U(256); else a[r.U(a.size())] = r.U(256); } } break;
    case 5: if (!j->com_data.empty()) { auto& a = j->com_data[r.U(j->com_data.size())]; if (!a.empty()) a[r.U(a.size())] = r.U(256); } break;
    case 6: if (r.P(50)) { if (!j->app_data.empty()) j->app_data.pop_back(); } else j->com_data.push_back(std::vector<uint8_t>{0xfe, 0, 4, 1, 2}); break;
    case 7: if (!j->inter_marker_data.empty() && r.P(50)) j->inter_marker_data.pop_back(); else j->inter_marker_data.push_back(std::vector<uint8_t>(r.U(9), 0xff)); break;
    case 8: j->components[r.U(j->components.size())].id = r.U(r.P(70) ? 4 : 256); break;
  }
}
// Coefficients and quantisers at the ends of their ranges. As DC values are
// coded relative to their neighbours, these are reached on slopes.
void Extremes(K::JPEGData* j, R& r) {
  int w = r.P(70) ? r.In(33, 44) : r.In(2, 30), h = r.P(70) ? r.In(10, 15) : r.In(1, 9);
  j->width = w * 8 - r.U(8); j->height = h * 8 - r.U(8); j->max_h_samp_factor = j->max_v_samp_factor = 1; j->MCU_cols = w; j->MCU_rows = h;
  if (r.P(60)) for (auto& t : j->quant) if (r.P(70)) { t.precision = 1; for (int& v : t.values) v = r.P(50) ? 65535 - r.U(3) : r.P(50) ? 1 : r.In(1, 65535); }
  for (auto& c : j->components) {
    c.h_samp_factor = c.v_samp_factor = 1; c.width_in_blocks = w; c.height_in_blocks = h; c.num_blocks = w * h; c.coeffs.assign(size_t(w) * h * 64, 0);
    int kind = r.U(4), d = r.In(-500, 500), step = r.In(1500, 2050); std::vector<int> L(h), E(h);
    for (int y = 0; y < h; ++y) {
      int up = step * y;
      if (kind == 0) { L[y] = -std::min(16384 - d, up); E[y] = std::min(16384 + d, up); if (y && up >= 18400) L[y] = E[y - 1] - 32768; if (r.P(10)) L[y] += r.In(-1, 1); }
      else if (kind == 1) { L[y] = std::min(32767, up); E[y] = std::min(32767, L[y] + (w - 1) * step); }
      else if (kind == 2) { L[y] = std::max(-32768, -up); E[y] = std::max(-32768, L[y] - (w - 1) * step); }
      else { L[y] = (y ? L[y - 1] : 0) + r.In(-step, step); E[y] = (y ? E[y - 1] : 0) + r.In(-step, step); }
    }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      int v = kind == 1 || kind == 2 ? std::max(-32768, std::min(32767, L[y] + (kind == 1 ? x : -x) * step)) : w > 1 ? L[y] + (E[y] - L[y]) * x / (w - 1) : L[y];
      c.coeffs[(size_t(y) * w + x) * 64] = (int16_t)std::max(-32768, std::min(32767, v));
    }
    for (int n = r.P(50) ? 0 : r.U(2000); n--;) { size_t i = r.U(c.coeffs.size()); if (i & 63) c.coeffs[i] = r.P(50) ? (r.P(50) ? 2047 : -2047) : r.In(-2047, 2047); }
  }
}
}  // namespace
API int ref_encode_perturbed(const uint8_t* in, size_t n, int version, uint64_t seed, int kind, uint8_t** out, size_t* out_n) {
  K::JPEGData jpg;
  if (!K::ReadJpeg(in, n, K::JPEG_READ_ALL, &jpg)) return -1;
  jpg.version = version;
  R r{seed};
  for (int q = 0; q < 1 || r.P(35); ++q) switch (kind) {
    case 0: Scan(&jpg, r); break;
    case 1: Markers(&jpg, r); break;
    case 2: Huffman(&jpg, r); break;
    case 3: Tables(&jpg, r); break;
    case 4: Coefficients(&jpg, r); break;
    case 7: Extremes(&jpg, r); break;
    case 5: Geometry(&jpg, r); if (r.P(50)) Coefficients(&jpg, r); break;
    default: Rest(&jpg, r); break;
  }
  size_t len = 8 * K::GetMaximumBrunsliEncodedSize(jpg);
  std::string s(len, 0);
  if (!K::BrunsliEncodeJpeg(jpg, (uint8_t*)&s[0], &len)) return 0;
  s.resize(len); Give(s, out, out_n);
  return 1;
}
// As ref_encode, with random but conforming choices of the encoder.
API int ref_encode_variant(const uint8_t* in, size_t n, int version, uint64_t seed, uint8_t** out, size_t* out_n) {
  K::JPEGData jpg;
  if (!K::ReadJpeg(in, n, K::JPEG_READ_ALL, &jpg)) return -1;
  jpg.version = version;
  K::Knobs& k = K::TheKnobs();
  k.s = seed; k.on = true;
  bool all = k.U(5) == 0;
  for (double& x : k.share) x = all ? 0.8 : k.U(3) == 0 ? (1 + k.U(10)) * 0.1 : 0;
  size_t len = 8 * K::GetMaximumBrunsliEncodedSize(jpg);
  std::string s(len, 0);
  bool ok = K::BrunsliEncodeJpeg(jpg, (uint8_t*)&s[0], &len);
  k.on = false;
  if (!ok) return 0;
  s.resize(len); Give(s, out, out_n);
  return 1;
}

// Feeds the pieces that end at cuts[] and notes how much is output after each.
API int ref_progress(const uint8_t* in, size_t n, const size_t* cuts, size_t ncuts, size_t* made) {
  K::BrunsliDecoder dec; std::vector<uint8_t> w(1 << 16); size_t pos = 0, total = 0; int last = 0;
  for (size_t i = 0; i < ncuts; ++i) {
    std::vector<uint8_t> piece(in + pos, in + cuts[i]); pos = cuts[i]; size_t ai = piece.size(); const uint8_t* ni = piece.data(); size_t ao; K::BrunsliDecoder::Status st;
    do { ao = w.size(); uint8_t* no = w.data(); st = dec.Decode(&ai, &ni, &ao, &no); total += w.size() - ao; } while (st == K::BrunsliDecoder::NEEDS_MORE_OUTPUT);
    made[i] = total; last = (int)st; if (st == K::BrunsliDecoder::ERROR) { for (; i < ncuts; ++i) made[i] = total; break; }
  }
  return last;
}
