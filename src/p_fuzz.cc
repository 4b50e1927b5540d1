// Coverage-guided workload of the thorough tier. BRN_FUZZ selects the monitor;
// a violation aborts and libFuzzer stores the input.
#include <brunsli/brunsli_encode.h>
#include <brunsli/brunsli_decode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <brunsli/jpeg_data.h>
#include <c/experimental/groups.h>
#include "refapi.h"
#include <string>
#include <vector>
#include <random>
#include <cstring>
#include <cstdlib>
#include <cstdio>
using namespace brunsli;
extern "C" size_t LLVMFuzzerMutate(uint8_t*, size_t, size_t);
static size_t App(void* d, const uint8_t* p, size_t n) { auto s=(std::string*)d; if (s->size()+n > (64u<<20)) return 0; s->append((const char*)p, n); return n; }
static const char* T() { static const char* t = getenv("BRN_FUZZ"); return t ? t : "decode"; }
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "CHECK failed: %s\n", #x); abort(); } } while (0)
// ---- sections
struct Sec { int tag; std::string head, body; };
static bool Var(const std::string& s, size_t* p, uint64_t* v) { *v = 0; for (int i = 0; i < 9; ++i) { if (*p >= s.size()) return false; uint8_t b = s[(*p)++]; *v |= uint64_t(b & 127) << (7 * i); if (!(b & 128)) return true; } return false; }
static std::string PutVar(uint64_t v) { std::string o; do { uint8_t b = v & 127; v >>= 7; if (v) b |= 128; o += char(b); } while (v); return o; }
static bool Split(const std::string& s, std::vector<Sec>* o) {
  static const char sig[] = "\x0A\x04\x42\xD2\xD5\x4E"; if (s.size() < 6 || memcmp(s.data(), sig, 6)) return false; size_t p = 6;
  while (p < s.size()) { uint8_t m = s[p++]; uint64_t v; if (!Var(s, &p, &v)) return false; if ((m & 7) == 2) { if (v > s.size() - p) v = s.size() - p; o->push_back({m, "", s.substr(p, v)}); p += v; } else return false; }
  return true;
}
static std::string Join(const std::vector<Sec>& v) { std::string o("\x0A\x04\x42\xD2\xD5\x4E", 6); for (auto& s : v) { o += char(s.tag); o += PutVar(s.body.size()); o += s.body; } return o; }
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) {
  std::minstd_rand r(seed); std::vector<Sec> v;
  if (strcmp(T(), "read") && r() % 8 && Split(std::string((char*)d, n), &v) && !v.empty()) {
    auto& s = v[r() % v.size()]; size_t cap = max > n ? s.body.size() + (max - n) : s.body.size(); if (cap > 16) cap -= 10;
    std::vector<uint8_t> b(std::max(cap, s.body.size()) + 1); memcpy(b.data(), s.body.data(), s.body.size());
    size_t m = LLVMFuzzerMutate(b.data(), s.body.size(), cap ? cap : 1); s.body.assign((char*)b.data(), m);
    if (r() % 30 == 0) v.erase(v.begin() + r() % v.size());
    if (r() % 30 == 0 && v.size() > 1) std::swap(v[r() % v.size()], v[r() % v.size()]);
    std::string o = Join(v); if (o.size() <= max) { memcpy(d, o.data(), o.size()); return o.size(); }
  }
  return LLVMFuzzerMutate(d, n, max);
}
extern "C" size_t LLVMFuzzerCustomCrossOver(const uint8_t* a, size_t an, const uint8_t* b, size_t bn, uint8_t* o, size_t max, unsigned seed) {
  std::vector<Sec> v, w; std::minstd_rand r(seed);
  if (Split(std::string((char*)a, an), &v) && Split(std::string((char*)b, bn), &w)) { for (auto& s : v) for (auto& t : w) if (s.tag == t.tag && r() % 3 == 0) s.body = t.body; std::string x = Join(v); if (x.size() <= max) { memcpy(o, x.data(), x.size()); return x.size(); } }
  if (an > max) an = max; memcpy(o, a, an); return an;
}
static bool Big(const JPEGData& j) { size_t n = 0; for (auto& c : j.components) n += c.num_blocks; return n > 4000; }
static uint64_t Declared(const std::string& s) { std::vector<Sec> v; if (!Split(s, &v) || v.empty()) return 0; const std::string& b = v[0].body; size_t p = 0; uint64_t w = 1, h = 1; while (p < b.size()) { uint8_t m = b[p++]; uint64_t x; if (!Var(b, &p, &x)) break; if (m >> 3 == 1) w = x; if (m >> 3 == 2) h = x; } return w > 65535 || h > 65535 ? 0 : w * h; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  std::string t = T(), s((const char*)d, n);
  if (t == "decode" || t == "stream") {
    if (Declared(s) > 300 * 300) return 0;
    JPEGData j; int st = BrunsliDecodeJpeg(d, n, &j); std::string o; bool ok = false;
    if (st == BRUNSLI_OK) { JPEGOutput out(App, &o); ok = WriteJpeg(j, out); }
    if (t == "decode" && st != BRUNSLI_OK && st != BRUNSLI_NOT_ENOUGH_DATA) return 0;
    uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) h = (h ^ d[i]) * 16777619u; std::minstd_rand r(h);
    BrunsliDecoder dec; std::string q; size_t pos = 0; int mode = r() % 4; size_t steps = 0;
    while (true) {
      CHECK(++steps < 40 * n + 100000);
      size_t k = mode == 0 ? 1 : mode == 1 ? 1 + r() % 7 : mode == 2 ? 1 + r() % 700 : n; k = std::min(k, n - pos);
      std::vector<uint8_t> in(d + pos, d + pos + k); pos += k; const uint8_t* p = in.data(); size_t a = k; BrunsliDecoder::Status e;
      do { uint8_t ob[300]; size_t av = 1 + r() % 300, av0 = av; uint8_t* np = ob; e = dec.Decode(&a, &p, &av, &np); q.append((char*)ob, av0 - av); if (q.size() > (64u << 20)) return 0; } while (e == BrunsliDecoder::NEEDS_MORE_OUTPUT);
      if (e == BrunsliDecoder::ERROR) { CHECK(!ok); CHECK(q.size() <= 0 || !ok); return 0; }
      if (e == BrunsliDecoder::DONE) { CHECK(pos == n || !ok); if (pos == n) { CHECK(ok); CHECK(q == o); } return 0; }
      if (pos == n) { CHECK(!ok); return 0; }
    }
  }
  if (t == "verdict") {  // against the pinned decoder
    if (Declared(s) > 300 * 300) return 0;
    std::string ro, o; int rs = RefDecode(s, &ro); JPEGData j; int st = BrunsliDecodeJpeg(d, n, &j); bool ok = false;
    if (st == BRUNSLI_OK) { JPEGOutput out(App, &o); ok = WriteJpeg(j, out); }
    CHECK((rs == 0) == ok); CHECK(!ok || o == ro); CHECK((rs == BRUNSLI_NOT_ENOUGH_DATA) == (st == BRUNSLI_NOT_ENOUGH_DATA));
    return 0;
  }
  if (t == "groups") {
    if (n < 2) return 0; static const size_t kA[] = {4, 8, 16, 32}; size_t a = kA[d[0] & 3], b = a << (d[1] & 3);
    JPEGData j; Executor e = [](const Runnable& x, size_t c) { for (size_t i = 0; i < c; ++i) x(i); };
    std::vector<uint8_t> c(d + 2, d + n);
    if (Declared(s.substr(2)) > 300 * 300) return 0;
    if (DecodeGroups(c.data(), c.size(), &j, a, b, &e)) { std::string o; JPEGOutput out(App, &o); WriteJpeg(j, out); }
    return 0;
  }
  if (t == "read") {
    JPEGData h; bool hd = ReadJpeg(d, n, JPEG_READ_HEADER, &h); if (hd && (h.width > 400 || h.height > 400)) return 0;
    CHECK(hd == (h.error == JPEGReadError::OK));
    JPEGData j, k; bool tab = ReadJpeg(d, n, JPEG_READ_TABLES, &k); bool ok = ReadJpeg(d, n, JPEG_READ_ALL, &j); CHECK(ok == (j.error == JPEGReadError::OK)); if (!ok || Big(j)) return 0; CHECK(hd && tab); CHECK(k.quant.size() == j.quant.size() && k.components.size() == j.components.size() && h.width == j.width && k.width == j.width);
    std::string o; JPEGOutput out(App, &o); CHECK(WriteJpeg(j, out)); CHECK(o == s);
    std::string b(GetMaximumBrunsliEncodedSize(j), 0); size_t m = b.size(); if (!BrunsliEncodeJpeg(j, (uint8_t*)&b[0], &m)) return 0; b.resize(m);
    JPEGData x; CHECK(BrunsliDecodeJpeg((const uint8_t*)b.data(), m, &x) == BRUNSLI_OK); std::string y; JPEGOutput out2(App, &y); CHECK(WriteJpeg(x, out2)); CHECK(y == s);
    std::string z; CHECK(RefDecode(b, &z) == 0); CHECK(z == s); if (RefEncode(s, n & 1 ? 0 : 2, &b) == 1) { JPEGData v; CHECK(BrunsliDecodeJpeg((const uint8_t*)b.data(), b.size(), &v) == BRUNSLI_OK); y.clear(); JPEGOutput out3(App, &y); CHECK(WriteJpeg(v, out3) && y == s); }
    return 0;
  }
  return 0;
}
