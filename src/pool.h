// Pools of inputs shared by the monitors.
#pragma once
#include "api.h"
#include "brn.h"
#include "gen.h"
#include "refapi.h"
#include <dirent.h>
#include <algorithm>
#include <map>

struct Jpg { std::string bytes; GenInfo info; std::string kind; };

// The files of /verif/corpus/<dir>, in the order of their names.
inline const std::vector<std::string>& Corpus(const char* dir) {
  static std::map<std::string, std::vector<std::string>> m;
  auto it = m.find(dir); if (it != m.end()) return it->second;
  std::vector<std::string> names, &v = m[dir];
  std::string base = std::string(VERIF_DIR) + "/corpus/" + dir;
  if (DIR* d = opendir(base.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name); closedir(d); }
  std::sort(names.begin(), names.end());
  for (auto& n : names) { FILE* f = fopen((base + "/" + n).c_str(), "rb"); if (!f) continue; std::string s; char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, k); fclose(f); v.push_back(s); }
  return v;
}
// A segment with other contents, as editors and cameras add them.
inline std::string RandomSegment(Rng* r, size_t max) {
  std::string m(r->P(0.7) ? r->U(std::min<size_t>(max, 300)) : r->U(max), 0); int t = r->U(4);
  for (size_t i = 0; i < m.size(); ++i) m[i] = t == 0 ? r->U(256) : t == 1 ? "<x:xmpmeta xmlns:x='adobe:ns:meta/'>"[i % 36] : t == 2 ? (i * i >> 4) : r->U(4);
  std::string s = "\xFF"; s += r->P(0.3) ? '\xFE' : (char)(0xE0 + r->U(16)); s += (char)((m.size() + 2) >> 8); s += (char)((m.size() + 2) & 255);
  return s + m;
}
// A file of a real encoder, as it is or with other metadata.
inline bool RealJpeg(Rng* r, size_t limit, Jpg* j) {
  auto& v = Corpus("jpeg"); if (v.empty()) return false;
  j->bytes = v[r->U(v.size())]; for (int k = 0; k < 20 && j->bytes.size() > limit; ++k) j->bytes = v[r->U(v.size())];
  if (j->bytes.size() > limit) return false;
  j->kind = "real";
  if (r->P(0.4)) { int n = 1 + r->U(3); for (int k = 0; k < n; ++k) j->bytes.insert(2, RandomSegment(r, r->P(0.2) ? 65533 : 3000)); j->kind = "real+meta"; }
  if (r->P(0.15)) { std::string t(r->U(r->P(0.5) ? 20 : 2000), 0); for (auto& ch : t) ch = r->U(r->P(0.5) ? 256 : 3); j->bytes += t; }
  return true;
}
inline int SpecialOf(long idx) { return idx >= 7 && idx % 7 < 2 ? 7 : (int)(idx % 7); }
// Images in the corners of what the format can express.
inline Jpg SpecialJpeg(Rng* r, int which = -1) {
  Jpg j; GenOptions o; if (which < 0) which = r->P(0.08) ? r->U(2) : 2 + r->U(6); o.simple_meta = true;
  switch (which) {
    case 0: j.kind = "special-blank"; o.style = r->P(0.7) ? 2 : 5; o.no_breaks = o.max_eob_runs = true; o.force_ncomp = r->P(0.6) ? 1 : 3; o.force_progressive = r->P(0.9); o.fixed_w = r->R(1500, 1800); o.fixed_h = r->R(1500, 1800); o.max_blocks = 10; break;
    case 1: j.kind = "special-metadata"; o.meta_bytes = (1 << 20) - 70000 + r->U(200000); o.tiny = true; break;
    case 2: j.kind = "special-order"; o.style = 9; o.no_breaks = r->P(0.7); o.force_ncomp = r->P(0.6) ? 1 : 3; o.big = true; o.max_blocks = o.force_ncomp == 1 ? 1300 : 3600; break;
    case 3: j.kind = "special-sampled-empty"; o.style = 10; o.force_ncomp = 1; o.big = true; o.max_blocks = 1500; break;
    case 4: j.kind = "special-ones"; o.style = 11; o.max_blocks = 400; break;
    case 5: j.kind = "special-quant"; o.quant_extremes = true; o.max_blocks = 30; break;
    case 7: {  // as many segments of one sort as can be stored, one less or one more
      j.kind = "special-many-segments"; o.tiny = true; o.max_blocks = 4; o.legal = true; j.bytes = GenJpeg(r->Next(), o, &j.info); int sort = r->U(3), n = (sort == 0 ? 0x40 + 3 * 0x100 : 0x400) + r->R(-1, 1); std::string in;
      if (r->P(0.25)) n = 2 + r->U(n);
      for (int i = 0; i < n; ++i) {
        if (sort == 0) in += std::string("\xFF\xE0\0\x10JFIF\0\1", 10) + (char)(1 + r->U(2)) + (char)r->U(4) + std::string("\0\1\0\1\0\0", 6);
        else { std::string t(r->P(0.8) ? r->U(3) : r->U(20), (char)r->U(256)); in += std::string("\xFF") + (char)(sort == 1 ? 0xE1 + r->U(15) : 0xFE) + std::string(1, '\0') + (char)(t.size() + 2) + t; }
      }
      j.bytes.insert(2, in); return j; }
    default: j.kind = "special-tables"; o.redefine_tables = r->P(0.3) ? r->R(200, 700) : r->U(60); o.max_blocks = 60; break;
  }
  j.bytes = GenJpeg(r->Next(), o, &j.info);
  return j;
}
// Images and metadata whose sizes need more than 16 bits, or section lengths of four bytes.
inline Jpg HugeJpeg(Rng* r, int which) {
  Jpg j; GenOptions o; o.simple_meta = true; o.max_blocks = 10; o.force_ncomp = 1;
  switch (which) {
    case 0: j.kind = "huge-blocks"; o.style = 1; o.force_progressive = 1; o.fixed_w = r->R(2100, 2300); o.fixed_h = r->R(2060, 2200); break;
    case 1: j.kind = "huge-dense"; o.style = 3; o.fixed_w = r->R(1500, 1600); o.fixed_h = r->R(1500, 1600); o.force_progressive = r->P(0.2); break;
    case 2: j.kind = "huge-wide"; o.style = 12; o.no_breaks = true; o.fixed_w = 65535; o.fixed_h = r->R(65, 80); o.force_progressive = 0; if (r->P(0.5)) { std::swap(o.fixed_w, o.fixed_h); } break;
    case 3: j.kind = "huge-metadata"; o.tiny = true; o.meta_bytes = (2 << 20) + r->U(100000); break;
    case 4: j.kind = "huge-sequential"; o.style = 1; o.force_progressive = 0; o.force_ncomp = 3; o.fixed_w = r->R(2100, 2300); o.fixed_h = r->R(2060, 2200); break;
    case 5: j.kind = "huge-limit"; o.style = 2; o.no_breaks = o.max_eob_runs = true; o.force_progressive = r->P(0.5); o.fixed_w = 65535; o.fixed_h = 2048; break;
    case 7: j.kind = "huge-symbols"; o.style = 3; o.force_progressive = 0; o.fixed_w = r->R(4150, 4300); o.fixed_h = r->R(4150, 4300); break;  // above 2^24 nonzero coefficients
    default: j.kind = "huge-tail"; o.tiny = true; break;
  }
  j.bytes = GenJpeg(r->Next(), o, &j.info);
  if (which == 6) { std::string t((2 << 20) + r->U(100000), 0); for (size_t i = 0; i < t.size(); ++i) t[i] = r->P(0.01) ? r->U(256) : i >> 9; j.bytes += t; }
  return j;
}
// A small image with more than the reserve of the encoder (1 MiB) of
// incompressible data besides the image, in one or several places.
inline Jpg BulkJpeg(Rng* r, int which) {
  static const char* const names[] = {"tail", "comments", "segments", "profile", "between-markers", "mixed"};
  Jpg j; GenOptions o; o.simple_meta = o.tiny = true; o.max_blocks = 10; j.kind = std::string("bulk-") + names[which % 6];
  j.bytes = GenJpeg(r->Next(), o, &j.info); std::string in, tail;
  auto noise = [&](size_t n, bool plain) { std::string t(n, 0); for (size_t i = 0; i < n; i += 8) { uint64_t x = r->Next(); for (size_t k = i; k < n && k < i + 8; ++k, x >>= 8) { t[k] = (char)x; if (plain && t[k] == (char)255) t[k] = 'x'; } } return t; };
  size_t total = (1 << 20) + r->U(3 << 20), done = 0;
  while (done < total) {
    int k = which % 6 == 5 ? r->U(5) : which % 6; size_t n = r->P(0.7) ? 65533 : r->U(65534);
    if (k == 0) tail += noise(n, false);
    else if (k == 4) { size_t m = which % 6 == 5 ? n * 4 : total; in += noise(m, true); if (which % 6 != 5) done = total; else in += std::string("\xFF\xFE\0\3x", 5); done += m; }
    else { n = std::max<size_t>(n, 20); std::string t = noise(n, false); if (k == 3) t.replace(0, 14, std::string("ICC_PROFILE\0\1\1", 14)); n += 2; in += std::string("\xFF") + (char)(k == 1 ? 0xFE : k == 3 ? 0xE2 : 0xE3 + r->U(13)) + (char)(n >> 8) + (char)n + t; }
    if (k != 4) done += n;
  }
  j.bytes = j.bytes.substr(0, 2) + in + j.bytes.substr(2) + tail; return j;
}
inline Jpg PickJpeg(Rng* r, bool thorough, double mutate = 0.15, int max_blocks = 0) {
  if (max_blocks == 0 && r->P(thorough ? 0.08 : 0.04)) { Jpg j = SpecialJpeg(r); if (r->P(mutate)) { j.bytes = MutateJpeg(j.bytes, r); j.kind += "+mut"; } return j; }
  Jpg j; GenOptions o; double p = r->D();
  if (r->P(0.07) && RealJpeg(r, max_blocks ? max_blocks * 40 : r->P(0.02) ? 1000000 : 60000, &j)) { if (r->P(mutate)) { j.bytes = MutateJpeg(j.bytes, r); j.kind += "+mut"; } return j; }
  o.max_blocks = r->P(0.6) ? 60 : 500;
  if (p < 0.15) { o.photo = true; j.kind = "photo"; }
  else if (p < 0.35) { o.legal = true; j.kind = "legal"; }
  else if (p < 0.40) { o.tiny = true; j.kind = "tiny"; }
  else if (p < 0.43) { o.big = true; o.max_blocks = thorough ? 12000 : 4000; o.simple_meta = true; j.kind = "big"; }
  else j.kind = "any";
  if (r->P(0.05)) o.shadow_segments = 1 + r->U(2);
  if (max_blocks) o.max_blocks = std::min(o.max_blocks, max_blocks);
  if (o.max_blocks <= 60) o.simple_meta = r->P(0.9);
  if (r->P(0.06)) o.garbage = r->D();
  j.bytes = GenJpeg(r->Next(), o, &j.info);
  if (r->P(mutate)) { j.bytes = MutateJpeg(j.bytes, r); j.kind += "+mut"; }
  return j;
}
// The encoder sizes its buffers after every fifth block; here these are empty.
inline Jpg UndersampledJpeg(Rng* r) {
  Jpg j; GenOptions o; o.fixed_w = 8 * r->R(32, 48); o.fixed_h = 8 * r->R(33, 44); o.max_blocks = 4000; o.force_ncomp = r->P(0.7) ? 1 : 3; o.style = 10; o.no_breaks = true; o.simple_meta = true; o.period = 5;
  j.kind = "undersampled"; j.bytes = GenJpeg(r->Next(), o, &j.info); return j;
}
inline void CountFeatures(Ctx& c, const Jpg& j) {
  std::string last;
  std::unordered_set<std::string> seen;
  for (auto& f : j.info.features) {
    std::string k = f.compare(0, 5, "samp=") == 0 ? "sampling-layouts" : f;
    if (k == "sampling-layouts") { c.Ev("feature:sampling"); continue; }
    if (seen.insert(k).second) c.Ev("feature:" + k);
  }
}
// A stream as another encoder could write it: the pinned encoder, with its
// decisions drawn at random. Empty if the pinned decoder does not give the
// JPEG back.
inline std::string VariantBrn(Rng* r, const std::string& jpg) {
  std::string b, d;
  if (RefVariant(jpg, r->P(0.75) ? 2 : 0, r->Next(), &b) != 1 || RefDecode(b, &d) != 0 || d != jpg) b.clear();
  return b;
}
// A well-formed stream of a JPEG whose parsed fields do not fit together.
inline std::string InconsistentBrn(Rng* r, const std::string& jpg, std::string* what = nullptr) {
  static const char* const names[] = {"scan", "markers", "huffman", "tables", "coefficients", "geometry", "rest", "extremes"};
  int m = r->U(8); std::string b;
  RefPerturbed(jpg, r->P(0.8) ? 2 : 0, r->Next(), m, &b);
  if (what) *what = std::string("inconsistent:") + names[m];
  return b;
}
// A small valid stream: kind is drawn from {repo encoder v2, repo v0, bypass,
// pinned encoder, variants of it}. Returns "" if the JPEG is not encodable.
inline std::string PickBrn(Rng* r, const std::string& jpg, std::string* kind, bool allow_bypass = true) {
  std::string b; double p = r->D();
  if (p < 0.5) { *kind = "v2"; Encode(jpg, &b, 2); }
  else if (p < 0.65) { *kind = "v0"; Encode(jpg, &b, 0); }
  else if (p < 0.75 && allow_bypass) { *kind = "bypass"; Bypass(jpg, &b); }
  else if (p < 0.85) { *kind = "pinned"; if (RefEncode(jpg, r->P(0.7) ? 2 : 0, &b) != 1) b.clear(); }
  else { *kind = "variant"; b = VariantBrn(r, jpg); }
  return b;
}
