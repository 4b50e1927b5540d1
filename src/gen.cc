#include "gen.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include "../ref/c/common/constants.h"   // compiled with -Dbrunsli=brunsli_ref

namespace {
namespace K = brunsli;  // -> brunsli_ref

const int kZig[64] = {0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18,
                      11, 4,  5,  12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
                      13, 6,  7,  14, 21, 28, 35, 42, 49, 56, 57, 50, 43,
                      36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45,
                      38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};

struct Comp {
  int id, h, v, tq;
  int wb, hb;            // padded to MCU
  int sw, sh;            // blocks in a non-interleaved scan
  std::vector<int16_t> co;  // zigzag order
};

struct Scan {
  std::vector<int> comps;
  std::vector<int> td, ta;
  int Ss = 0, Se = 63, Ah = 0, Al = 0;
};

struct Tok {       // entropy token
  int8_t cls;      // 0 dc, 1 ac, -1 raw bits, -2 restart
  uint8_t slot;
  uint8_t sym;
  uint8_t nbits;
  uint32_t bits;
};

int NBits(int v) { v = v < 0 ? -v : v; int n = 0; while (v) { n++; v >>= 1; } return n; }

struct HTab {
  int counts[17];
  std::vector<int> vals;
  int len[256];
  uint32_t code[256];
  bool valid = false;
  void Finish() {
    memset(len, 0, sizeof(len));
    uint32_t c = 0; size_t k = 0;
    for (int l = 1; l <= 16; ++l) {
      for (int i = 0; i < counts[l]; ++i) { len[vals[k]] = l; code[vals[k]] = c++; ++k; }
      c <<= 1;
    }
    valid = true;
  }
  bool Covers(const uint32_t* freq) const {
    if (!valid) return false;
    for (int i = 0; i < 256; ++i) if (freq[i] && !len[i]) return false;
    return true;
  }
};

HTab Stock(int cls, int which) {
  HTab t; t.vals.clear(); t.counts[0] = 0;
  if (cls == 0) {
    int n = 0;
    for (int i = 0; i < 16; ++i) t.counts[i + 1] = K::kStockDCHuffmanCodeCounts[which][i];
    for (int i = 0; i < 16; ++i) n += t.counts[i + 1];
    for (int l = 16; l > 0; --l) if (t.counts[l]) { t.counts[l]--; n--; break; }
    for (int i = 0; i < n; ++i) t.vals.push_back(K::kStockDCHuffmanCodeValues[which][i]);
  } else {
    for (int i = 0; i < 16; ++i) t.counts[i + 1] = K::kStockACHuffmanCodeCounts[which][i];
    int n = 0;
    for (int i = 0; i < 16; ++i) n += t.counts[i + 1];
    for (int l = 16; l > 0; --l) if (t.counts[l]) { t.counts[l]--; n--; break; }
    for (int i = 0; i < n; ++i) t.vals.push_back(K::kStockACHuffmanCodeValues[which][i]);
  }
  t.Finish();
  return t;
}

// Optimal lengths limited to 16 with the all-ones code reserved (K.2 style).
HTab Optimal(const uint32_t* freq_in, Rng* r) {
  std::vector<std::pair<uint64_t, int>> fr;
  for (int i = 0; i < 256; ++i) if (freq_in[i]) fr.push_back({freq_in[i], i});
  HTab t; memset(t.counts, 0, sizeof(t.counts));
  if (fr.empty()) { t.Finish(); return t; }
  // package-merge-free: build plain huffman over n+1 leaves, then fix lengths
  size_t n = fr.size() + 1;
  std::vector<uint64_t> w; for (auto& p : fr) w.push_back(p.first * 2);
  w.push_back(1);
  std::vector<int> parent(2 * n, -1); std::vector<uint64_t> ww(w);
  std::vector<int> alive; for (size_t i = 0; i < n; ++i) alive.push_back(i);
  while (alive.size() > 1) {
    std::sort(alive.begin(), alive.end(), [&](int a, int b) { return ww[a] != ww[b] ? ww[a] > ww[b] : a < b; });
    int a = alive.back(); alive.pop_back(); int b = alive.back(); alive.pop_back();
    int nw = ww.size(); ww.push_back(ww[a] + ww[b]);
    if ((size_t)nw >= parent.size()) parent.resize(nw + 1, -1);
    parent[a] = nw; parent[b] = nw; alive.push_back(nw);
  }
  std::vector<int> bits(600, 0);
  for (size_t i = 0; i < n; ++i) { int d = 0, x = i; while (parent[x] != -1) { x = parent[x]; d++; } if (d == 0) d = 1; bits[d]++; }
  for (int i = 599; i > 16; --i) {
    while (bits[i] > 0) {
      int j = i - 2; while (bits[j] == 0) j--;
      bits[i] -= 2; bits[i - 1]++; bits[j + 1] += 2; bits[j]--;
    }
  }
  for (int l = 16; l > 0; --l) if (bits[l]) { bits[l]--; break; }
  std::sort(fr.begin(), fr.end(), [](const std::pair<uint64_t,int>& a, const std::pair<uint64_t,int>& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; });
  for (int l = 1; l <= 16; ++l) t.counts[l] = bits[l];
  for (auto& p : fr) t.vals.push_back(p.second);
  (void)r;
  t.Finish();
  return t;
}

// Random (possibly incomplete, possibly oversized) prefix code covering freq.
HTab RandomTab(const uint32_t* freq, int cls, Rng* r, bool legal) {
  std::vector<int> syms; for (int i = 0; i < 256; ++i) if (freq[i]) syms.push_back(i);
  int maxsym = cls == 0 ? 12 : 256;
  int extra = r->P(0.4) ? (cls == 0 ? r->U(13) : r->U(r->P(0.2) ? 257 : 40)) : 0;
  std::vector<bool> used(256, false); for (int s : syms) used[s] = true;
  for (int i = 0; i < extra; ++i) {
    int s = r->U(maxsym);
    if (cls == 1 && legal && (((s & 15) == 0 && s != 0 && s != 0xF0) || (s & 15) > 10)) continue;
    if (!used[s]) { used[s] = true; syms.push_back(s); }
  }
  for (size_t i = syms.size(); i > 1; --i) std::swap(syms[i - 1], syms[r->U(i)]);
  size_t leaves_needed = syms.size() + 1 + (r->P(0.3) ? r->U(4) : 0);
  std::vector<int> leaves(1, 0);
  double skew = r->D();
  while (leaves.size() < leaves_needed || (leaves.size() == 1)) {
    size_t k;
    if (r->P(skew)) k = leaves.size() - 1; else k = r->U(leaves.size());
    int tries = 0;
    while (leaves[k] >= 16 && tries++ < 1000) k = r->U(leaves.size());
    if (leaves[k] >= 16) { for (k = 0; k < leaves.size(); ++k) if (leaves[k] < 16) break; }
    leaves[k]++; leaves.push_back(leaves[k]);
  }
  std::sort(leaves.begin(), leaves.end());
  HTab t; memset(t.counts, 0, sizeof(t.counts));
  // Use the shortest; the deepest leaf stays unused => all-ones reserved.
  for (size_t i = 0; i < syms.size(); ++i) t.counts[leaves[i]]++;
  t.vals = syms;
  t.Finish();
  return t;
}

struct BitW {
  std::string* o; uint64_t acc = 0; int n = 0;
  explicit BitW(std::string* out) : o(out) {}
  void Put(uint32_t v, int nb) {
    for (int i = nb - 1; i >= 0; --i) {
      acc = (acc << 1) | ((v >> i) & 1);
      if (++n == 8) { o->push_back((char)acc); if ((acc & 255) == 255) o->push_back(0); acc = 0; n = 0; }
    }
  }
  void Flush(int mode, Rng* r) {  // mode 0: ones, 1: zeros, 2: random
    while (n) Put(mode == 0 ? 1 : mode == 1 ? 0 : r->U(2), 1);
  }
};

struct Gen {
  Rng r; GenOptions o; GenInfo* info;
  std::vector<Comp> c; int W, H, mh, mv, mcu_w, mcu_h;
  bool prog = false; std::vector<Scan> scans;
  std::string out; int restart = 0; bool dri_done = false; int dri_scan = -1;
  HTab tabs[2][4]; int padmode = 0; bool quirks = true;
  int eob_policy = 0; double zrl_extra = 0;
  explicit Gen(uint64_t seed, const GenOptions& opt, GenInfo* i) : r(seed, 77), o(opt), info(i) {}

  void B(int v) { out.push_back((char)v); }
  void B2(int v) { B(v >> 8); B(v & 255); }
  void Mark(int m) {
    info->marks.push_back(out.size());
    if (quirks && r.P(o.garbage > 0 ? o.garbage : 0.01)) Garbage();
    B(0xFF); B(m);
  }

  // Bytes that are no marker: the reader has to carry them along. Also put
  // directly behind entropy-coded data, where they look like more of it.
  void Garbage() {
    int n = r.P(0.85) ? r.R(1, 6) : r.P(0.8) ? r.R(7, 300) : r.R(300, 20000), k = r.U(4);
    static const int kNo[] = {0xC3, 0xC5, 0xC8, 0xCF, 0xD8, 0xDC, 0xDE, 0xDF, 0xF0, 0xF7, 0xFD, 0xFF, 0x00, 0x01, 0x7F, 0xBF};
    for (int i = 0; i < n; ++i) {
      if (k == 0) B(r.P(0.7) ? 0xFF : r.U(0xC0));
      else if (k == 1) { B(0xFF); B(r.P(0.7) ? 0 : kNo[r.U(16)]); }
      else if (k == 2) B(r.P(0.3) ? 0 : r.U(0xC0));
      else if (r.P(0.4)) { B(0xFF); B(0); } else B(r.U(0xC0));
    }
    if (r.P(0.25)) { B(0xFF); B(0); }
    info->F("intermarker");
  }

  void Frame() {
    static const int kSamp[][4] = {{1,1,1,1},{2,2,1,1},{2,1,1,1},{1,2,1,1},{4,1,1,1},{1,1,1,2},{2,2,2,1},{2,2,1,2},{4,2,1,1},{2,4,1,1}};
    int n = o.force_ncomp ? o.force_ncomp : (r.P(0.6) ? 3 : r.R(1, 4));
    if (o.photo && !o.force_ncomp) n = r.P(0.75) ? 3 : 1;
    c.resize(n);
    int idk = r.U(5);
    for (int i = 0; i < n; ++i) {
      Comp& k = c[i];
      if (idk <= 2) k.id = i + 1; else if (idk == 3) k.id = i < 3 ? "RGB"[i] : 'A'; else k.id = (i * 61 + r.U(50)) & 255;
    }
    if (n == 1 && idk >= 3) { c[0].id = r.U(256); }
    if (n > 1 && !o.photo && r.P(0.1)) { int x = r.P(0.5) ? r.U(256) : r.R(0, 5); bool used = false; for (auto& k : c) used |= k.id == x; if (!used) c[r.U(n)].id = x; }  // all but one as usual
    int mode = r.U(10);
    for (auto& k : c) { k.h = k.v = 1; }
    if (n == 1) {
      if (r.P(0.3)) { c[0].h = r.R(1, 4); c[0].v = r.R(1, 4); info->F("gray-nonunit-samp"); }
    } else if (mode < 6) {
      const int* s = kSamp[r.U(10)];
      c[0].h = s[0]; c[0].v = s[1];
      for (int i = 1; i < n; ++i) { c[i].h = s[2]; c[i].v = s[3]; }
      if (n == 4 && r.P(0.5)) { c[3].h = c[0].h; c[3].v = c[0].v; }
    } else if (mode < 8) {
      int MH = 1 << r.U(3), MV = 1 << r.U(3);
      if (!o.groups_friendly && r.P(0.3)) { MH = 3; }
      if (!o.groups_friendly && r.P(0.2)) { MV = 3; }
      for (auto& k : c) { do { k.h = r.R(1, MH); } while (MH % k.h); do { k.v = r.R(1, MV); } while (MV % k.v); }
      c[r.U(n)].h = MH; c[r.U(n)].v = MV;
    }
    if (!o.legal && !o.groups_friendly && !o.photo && r.P(0.03)) {  // exotic sampling up to 15
      int MH = r.R(5, 15), MV = r.R(5, 15);
      for (auto& k : c) { k.h = r.P(0.5) ? MH : 1; k.v = r.P(0.5) ? MV : 1; }
      c[0].h = MH; c[0].v = MV; info->F("samp>4");
    }
    if (o.legal) {  // at most 10 blocks per MCU, factors 1..4
      int s = 0; for (auto& k : c) s += k.h * k.v;
      if (s > 10) { for (auto& k : c) k.h = k.v = 1; c[0].h = c[0].v = 2; }
    }
    mh = mv = 1;
    for (auto& k : c) { mh = std::max(mh, k.h); mv = std::max(mv, k.v); }
    for (auto& k : c) { if (mh % k.h) k.h = mh; if (mv % k.v) k.v = mv; }
    int per = 0; for (auto& k : c) per += k.h * k.v;
    int budget = std::max(1, o.max_blocks / per);
    int mw, mhh;
    if (o.tiny) { mw = r.R(1, 3); mhh = r.R(1, 3); }
    else if (o.big) { int t = budget; double a = 0.5 + r.D(); mw = std::max(1, (int)(sqrt((double)t) * a)); mhh = std::max(1, t / mw); }
    else {
      int t = 1 + r.U(budget);
      switch (r.U(5)) {
        case 0: mw = t; mhh = 1; break;
        case 1: mw = 1; mhh = t; break;
        default: mw = std::max(1, (int)(sqrt((double)t) * (0.4 + 1.2 * r.D()))); mhh = std::max(1, t / mw);
      }
    }
    W = std::min(65535, (mw - 1) * 8 * mh + 1 + (int)r.U(8 * mh));
    H = std::min(65535, (mhh - 1) * 8 * mv + 1 + (int)r.U(8 * mv));
    if (r.P(0.2)) { W = std::min(65535, mw * 8 * mh); H = std::min(65535, mhh * 8 * mv); }
    if (o.fixed_w) W = o.fixed_w;
    if (o.fixed_h) H = o.fixed_h;
    mcu_w = (W + 8 * mh - 1) / (8 * mh); mcu_h = (H + 8 * mv - 1) / (8 * mv);
    info->blocks = 0;
    for (auto& k : c) {
      k.wb = mcu_w * k.h; k.hb = mcu_h * k.v;
      k.sw = (W * k.h + 8 * mh - 1) / (8 * mh); k.sh = (H * k.v + 8 * mv - 1) / (8 * mv);
      info->blocks += k.wb * k.hb;
    }
    info->width = W; info->height = H; info->ncomp = n;
    char buf[64]; std::string s = "samp=";
    for (auto& k : c) { snprintf(buf, sizeof buf, "%dx%d,", k.h, k.v); s += buf; }
    info->F(s); info->F("ncomp=" + std::to_string(n));
  }

  void Coeffs() {
    int style = o.photo ? 0 : o.style >= 0 ? o.style : r.U(12) % 11;
    if (style == 9) style = r.R(9, 11); else if (style == 10 && o.style < 0 && !o.photo) style = 12;
    int outliers = r.P(0.15) ? r.R(7, 10) : 0;  // a few blocks that need very many code words
    int ralp = r.U(4); double rstay = r.P(0.5) ? 0.93 : r.D();
    static const char* kN[] = {"photo", "sparse", "zero", "dense", "extreme", "dc-only", "copy-above", "photo-hf", "gradient", "skewed", "periodic", "ones", "refine"};
    double dens[64]; int dk = r.U(4), period = r.P(0.5) ? 5 : r.R(2, 9), amp = r.P(0.3) ? 1 : r.R(1, 30);
    for (int z = 0; z < 64; ++z) { double t = z / 63.0; dens[z] = dk == 0 ? t * t : dk == 1 ? (r.P(0.3) ? 0 : r.P(0.3) ? 1 : r.D()) : dk == 2 ? (z > 40 ? 0.95 : 0.02) : r.D() * r.D(); }
    if (o.period) { period = o.period; if (amp > 1) amp *= r.P(0.5) ? 1 : 30; }
    info->F(std::string("coef=") + kN[style]);
    double q = o.photo ? 0.5 + 2.5 * r.D() : 0.3 + 5 * r.D();
    for (size_t ci = 0; ci < c.size(); ++ci) {
      Comp& k = c[ci];
      k.co.assign((size_t)k.wb * k.hb * 64, 0);
      double scale = q * (ci ? 0.5 : 1.0);
      std::vector<double> rowdc(k.wb, 0.0);
      double base = (r.D() - 0.5) * 600;
      for (int y = 0; y < k.hb; ++y) {
        double left = y ? rowdc[0] : base;
        for (int x = 0; x < k.wb; ++x) {
          int16_t* b = &k.co[((size_t)y * k.wb + x) * 64];
          switch (style) {
            case 0: case 7: {
              double up = y ? rowdc[x] : left;
              double dc = 0.5 * left + 0.5 * up + (r.D() - 0.5) * 24 * scale + 6 * sin(x * 0.13) + 6 * cos(y * 0.11);
              dc = std::max(-900.0, std::min(900.0, dc));
              rowdc[x] = left = dc;
              b[0] = (int16_t)lround(dc);
              double act = r.P(0.35) ? 0.15 : (0.4 + r.D() * 1.6);
              for (int z = 1; z < 64; ++z) {
                double sd = scale * act * (style == 7 ? 4.0 : 12.0 * exp(-z / 7.0));
                double u = r.D() - 0.5;
                double v = -sd * (u < 0 ? -1 : 1) * log(1 - 2 * fabs(u) + 1e-9) * 0.7;
                int iv = (int)v; if (iv > 1000) iv = 1000; if (iv < -1000) iv = -1000;
                b[z] = iv;
              }
              break; }
            case 1: { b[0] = r.R(-100, 100); int n = r.U(5); for (int i = 0; i < n; ++i) b[r.R(1, 63)] = r.R(-3, 3); break; }
            case 2: if (r.P(o.max_eob_runs ? 0.00002 : 0.05)) b[r.U(64)] = 1; break;
            case 3: for (int z = 0; z < 64; ++z) b[z] = r.R(-40, 40); break;
            case 4: {
              for (int z = 1; z < 64; ++z) if (r.P(0.3)) { int nb = r.R(1, 10); int v = r.R(1 << (nb - 1), (1 << nb) - 1); b[z] = r.P(0.5) ? v : -v; if (r.P(0.2)) b[z] = r.P(0.5) ? 1023 : -1023; }
              b[0] = r.P(0.5) ? r.R(-1024, 1023) : (r.P(0.5) ? 1023 : -1024);
              break; }
            case 5: b[0] = r.R(-1000, 1000); break;
            case 6: {
              if (y && r.P(0.7)) { memcpy(b, b - (size_t)k.wb * 64, 128); }
              else if (x && r.P(0.6)) memcpy(b, b - 64, 128);
              else for (int z = 0; z < 64; ++z) if (r.P(0.4)) b[z] = r.R(-20, 20);
              break; }
            case 9: b[0] = r.R(-200, 200); for (int z = 1; z < 64; ++z) if (r.P(dens[z])) { int v = r.R(1, amp); b[z] = r.P(0.5) ? v : -v; } break;
            case 10: { int m = o.period ? std::max(2, amp) : 9; if ((x + y * k.wb) % period) for (int z = 0; z < 64; ++z) b[z] = r.R(-m, m); break; }
            case 11: b[0] = (x ^ y) & 1 ? 1023 : -1024; for (int z = 1; z < 64; ++z) if (amp > 3 || r.P(0.6)) b[z] = amp & 1 ? 1023 : (1 << r.R(1, 10)) - 1; break;
            case 12: {  // long runs of zeros, of fresh and of already known coefficients
              int cls = r.U(3); b[0] = r.R(-500, 500);
              for (int z = 1; z < 64; ++z) {
                if (!r.P(rstay)) cls = r.U(3);
                int v = cls == 0 ? 0 : cls == 1 ? (1 << ralp) + r.U(1 << ralp) : r.R(2 << ralp, 40 << ralp);
                b[z] = r.P(0.5) ? v : -v;
              }
              break; }
            case 8: { b[0] = (x * 7 + y * 3) % 800 - 400; for (int z = 1; z < 10; ++z) b[z] = ((x + y + z) % 5) - 2; break; }
          }
          if (o.no_breaks || style == 10) continue;
          if (style != 2 && style != 5 && !o.photo && r.P(0.02)) { memset(b, 0, 128); if (r.P(0.5)) b[63] = r.R(-2, 2); }
          if (!o.photo && style != 2 && style != 5 && outliers && r.P(0.02)) for (int z = 0; z < 64; ++z) { int nb = z ? outliers : 10; int m = (1 << nb) - 1 - r.U(1 << (nb - 1)); b[z] = r.P(0.5) ? m : -m; }
          if (!o.photo && r.P(0.02)) { // run ending exactly with 16 zeros / full block
            memset(b + 1, 0, 126); b[47] = 1; if (r.P(0.5)) b[31] = -1;
          }
        }
      }
      // DC differences must stay codable (|diff| <= 2047): values in [-1024,1023] guarantee it.
    }
  }

  void MakeScans() {
    int n = (int)c.size();
    prog = o.force_progressive >= 0 ? o.force_progressive : r.P(0.45);
    auto all = [&] { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; };
    int mcu_blocks = 0; for (auto& k : c) mcu_blocks += k.h * k.v;
    bool can_interleave = true;
    if (!prog) {
      info->F("sequential");
      if (n == 1 || r.P(0.7)) { Scan s; s.comps = all(); scans.push_back(s); }
      else {
        // partition the components in order
        std::vector<int> order = all();
        if (quirks && r.P(0.3)) { for (int i = n; i > 1; --i) std::swap(order[i - 1], order[r.U(i)]); }
        int i = 0;
        while (i < n) { int m = r.R(1, n - i); Scan s; for (int j = 0; j < m; ++j) s.comps.push_back(order[i + j]); if (o.legal) std::sort(s.comps.begin(), s.comps.end()); scans.push_back(s); i += m; }
        info->F("multi-scan-sequential");
        if (!o.legal && r.P(0.1) && scans.size() > 1) { scans.pop_back(); info->F("component-without-scan"); }
      }
    } else {
      info->F("progressive");
      // DC
      int al_dc = r.P(0.6) ? r.U(3) : 0;
      std::vector<Scan> dcs, acs;
      if (can_interleave && (n == 1 || r.P(0.8))) { Scan s; s.comps = all(); s.Ss = s.Se = 0; s.Al = al_dc; dcs.push_back(s); }
      else for (int i = 0; i < n; ++i) { Scan s; s.comps = {i}; s.Ss = s.Se = 0; s.Al = al_dc; dcs.push_back(s); }
      std::vector<Scan> dcref;
      for (int a = al_dc; a > 0; --a) {
        if (!o.legal && r.P(0.05)) break;
        if (r.P(0.8)) { Scan s; s.comps = all(); s.Ss = s.Se = 0; s.Ah = a; s.Al = a - 1; dcref.push_back(s); }
        else for (int i = 0; i < n; ++i) { Scan s; s.comps = {i}; s.Ss = s.Se = 0; s.Ah = a; s.Al = a - 1; dcref.push_back(s); }
      }
      scans = dcs;
      std::vector<std::vector<Scan>> seqs;  // per (comp, band): ordered scans
      for (int i = 0; i < n; ++i) {
        int lo = 1;
        while (lo <= 63) {
          int hi = r.P(0.4) ? 63 : r.R(lo, 63);
          if (seqs.size() > 24 || (o.max_eob_runs && seqs.size() > 2)) hi = 63;
          int al = r.P(0.5) ? 0 : r.U(4);
          if (!o.legal && r.P(0.03)) al = r.R(4, 10);
          std::vector<Scan> q;
          Scan s; s.comps = {i}; s.Ss = lo; s.Se = hi; s.Al = al; q.push_back(s);
          for (int a = al; a > 0; --a) {
            Scan t = s; t.Ah = a; t.Al = a - 1; q.push_back(t);
            if (!o.legal && r.P(0.05)) break;
          }
          if (al) info->F("ac-refinement");
          if (!o.legal && r.P(0.03)) q.clear();
          if (!q.empty()) seqs.push_back(q);
          lo = hi + 1;
        }
      }
      if (!dcref.empty()) { seqs.push_back(dcref); info->F("dc-refinement"); }
      std::vector<size_t> pos(seqs.size(), 0);
      bool shuffle = r.P(0.6);
      while (true) {
        std::vector<int> cand; for (size_t i = 0; i < seqs.size(); ++i) if (pos[i] < seqs[i].size()) cand.push_back(i);
        if (cand.empty()) break;
        int k = shuffle ? cand[r.U(cand.size())] : cand[0];
        scans.push_back(seqs[k][pos[k]++]);
      }
      eob_policy = o.max_eob_runs ? 0 : r.U(4);
      info->F("eobpolicy=" + std::to_string(eob_policy));
    }
    if (!o.legal || r.P(0.5)) zrl_extra = (quirks && r.P(0.25)) ? 0.2 : 0;
    if (o.legal) zrl_extra = 0;
    for (auto& s : scans) {
      int td = r.U(4), ta = r.U(4); bool same = r.P(0.5);
      for (size_t i = 0; i < s.comps.size(); ++i) {
        if (!same) { td = r.U(4); ta = r.U(4); }
        if (o.photo) { td = ta = (s.comps[i] > 0); }
        if (o.legal && !prog) { td &= 1; ta &= 1; }
        s.td.push_back(td); s.ta.push_back(ta);
      }
    }
    info->progressive = prog; info->nscans = scans.size();
  }

  // --- entropy tokenisation of one scan
  std::vector<Tok> toks;
  int eobrun = 0; std::vector<uint8_t> eob_corr; int eob_slot = 0;
  void T(int cls, int slot, int sym, uint32_t bits, int nb) { Tok t; t.cls = cls; t.slot = slot; t.sym = sym; t.bits = bits; t.nbits = nb; toks.push_back(t); }
  void Raw(uint32_t bits, int nb) { T(-1, 0, 0, bits, nb); }
  void FlushEob() {
    if (eobrun > 0) {
      int nb = NBits(eobrun) - 1;
      T(1, eob_slot, nb << 4, eobrun & ((1 << nb) - 1), nb);
      for (uint8_t b : eob_corr) Raw(b, 1);
      eob_corr.clear(); eobrun = 0;
    }
  }
  int MaxEob() {
    switch (eob_policy) { case 0: return 0x7FFF; case 1: return 1; case 2: return r.R(1, 6); default: return r.P(0.1) ? r.R(1, 40) : 0x7FFF; }
  }
  void SeqBlock(const int16_t* b, int* last, int td, int ta) {
    int diff = b[0] - *last; *last = b[0];
    int nb = NBits(diff); T(0, td, nb, (uint32_t)(diff < 0 ? diff + (1 << nb) - 1 : diff), nb);
    int run = 0;
    for (int k = 1; k < 64; ++k) {
      if (!b[k]) { run++; continue; }
      while (run > 15) { T(1, ta, 0xF0, 0, 0); run -= 16; }
      int v = b[k]; nb = NBits(v);
      T(1, ta, (run << 4) | nb, (uint32_t)(v < 0 ? v + (1 << nb) - 1 : v), nb); run = 0;
    }
    if (run) {
      bool eob = true;
      if (zrl_extra > 0 && r.P(zrl_extra)) {
        while (run >= 16 && r.P(0.7)) { T(1, ta, 0xF0, 0, 0); run -= 16; info_zrl = true; }
        if (run == 0) eob = false;
      }
      if (eob) T(1, ta, 0, 0, 0);
    }
  }
  bool info_zrl = false;
  void AcFirst(const int16_t* b, const Scan& s, int ta) {
    int run = 0; eob_slot = ta;
    for (int k = s.Ss; k <= s.Se; ++k) {
      int v = b[k]; int a = (v < 0 ? -v : v) >> s.Al;
      if (!a) { run++; continue; }
      FlushEob();
      while (run > 15) { T(1, ta, 0xF0, 0, 0); run -= 16; }
      int nb = NBits(a); int val = v < 0 ? -a : a;
      T(1, ta, (run << 4) | nb, (uint32_t)(val < 0 ? val + (1 << nb) - 1 : val), nb); run = 0;
    }
    if (run) {
      if (zrl_extra > 0 && run >= 16 && r.P(zrl_extra)) {
        FlushEob();
        while (run >= 16 && r.P(0.7)) { T(1, ta, 0xF0, 0, 0); run -= 16; info_zrl = true; }
        if (run == 0) return;
      }
      eobrun++;
      if (eobrun >= MaxEob() || eobrun == 0x7FFF) FlushEob();
    }
  }
  void AcRefine(const int16_t* b, const Scan& s, int ta) {
    eob_slot = ta;
    int absv[64]; int eob = 0;
    for (int k = s.Ss; k <= s.Se; ++k) { int a = std::abs(b[k]) >> s.Al; absv[k] = a; if (a == 1) eob = k; }
    int run = 0; std::vector<uint8_t> corr;
    for (int k = s.Ss; k <= s.Se; ++k) {
      int a = absv[k];
      if (a == 0) { run++; continue; }
      while (run > 15 && k <= eob) {
        FlushEob();
        T(1, ta, 0xF0, 0, 0); run -= 16;
        for (uint8_t x : corr) Raw(x, 1);
        corr.clear();
      }
      if (a > 1) { corr.push_back(a & 1); continue; }
      FlushEob();
      T(1, ta, (run << 4) | 1, 0, 0);
      Raw(b[k] < 0 ? 0 : 1, 1);
      for (uint8_t x : corr) Raw(x, 1);
      corr.clear(); run = 0;
    }
    if (run > 0 || !corr.empty()) {
      eobrun++;
      eob_corr.insert(eob_corr.end(), corr.begin(), corr.end());
      if (eobrun >= MaxEob() || eob_corr.size() > 900 || eobrun == 0x7FFF) FlushEob();
    }
  }
  void Block(const Scan& s, int i, int y, int x, int* last) {
    Comp& k = c[s.comps[i]];
    const int16_t* b = &k.co[((size_t)y * k.wb + x) * 64];
    if (!prog) { SeqBlock(b, last, s.td[i], s.ta[i]); return; }
    if (s.Ss == 0) {
      if (s.Ah == 0) {
        int v = b[0] >> s.Al; int diff = v - *last; *last = v;
        int nb = NBits(diff); T(0, s.td[i], nb, (uint32_t)(diff < 0 ? diff + (1 << nb) - 1 : diff), nb);
      } else Raw((b[0] >> s.Al) & 1, 1);
    } else if (s.Ah == 0) AcFirst(b, s, s.ta[i]);
    else AcRefine(b, s, s.ta[i]);
  }
  void Tokenise(const Scan& s) {
    toks.clear(); eobrun = 0; eob_corr.clear();
    int last[4] = {0, 0, 0, 0};
    int rem = restart; bool first = true;
    auto maybe_restart = [&] {
      if (restart > 0 && !first && rem == 0) {
        FlushEob(); Tok t; memset(&t, 0, sizeof t); t.cls = -2; toks.push_back(t);
        memset(last, 0, sizeof last); rem = restart;
      }
      first = false; if (restart > 0) rem--;
    };
    if (s.comps.size() == 1) {
      Comp& k = c[s.comps[0]];
      for (int y = 0; y < k.sh; ++y) for (int x = 0; x < k.sw; ++x) { maybe_restart(); Block(s, 0, y, x, &last[0]); }
    } else {
      for (int y = 0; y < mcu_h; ++y) for (int x = 0; x < mcu_w; ++x) {
        maybe_restart();
        for (size_t i = 0; i < s.comps.size(); ++i) {
          Comp& k = c[s.comps[i]];
          for (int iy = 0; iy < k.v; ++iy) for (int ix = 0; ix < k.h; ++ix) Block(s, i, y * k.v + iy, x * k.h + ix, &last[i]);
        }
      }
    }
    FlushEob();
  }

  void WriteDht(std::vector<std::pair<int, int>> which) {
    size_t i = 0;
    while (i < which.size()) {
      size_t m = r.P(0.5) ? which.size() - i : 1;
      Mark(0xC4);
      int len = 2; for (size_t j = i; j < i + m; ++j) len += 17 + tabs[which[j].first][which[j].second].vals.size();
      B2(len);
      for (size_t j = i; j < i + m; ++j) {
        HTab& t = tabs[which[j].first][which[j].second];
        B(which[j].first << 4 | which[j].second);
        for (int l = 1; l <= 16; ++l) B(t.counts[l]);
        for (int v : t.vals) B(v);
      }
      i += m; ndht += m;
    }
  }
  int ndht = 0;

  void WriteScan(size_t si) {
    Scan& s = scans[si];
    if (dri_scan == (int)si) WriteDri();
    Tokenise(s);
    static uint32_t freq[2][4][256]; memset(freq, 0, sizeof freq);
    for (auto& t : toks) if (t.cls >= 0) freq[t.cls][t.slot][t.sym]++;
    std::vector<std::pair<int, int>> emit;
    if (s.Ss == 0 && s.Ah > 0 && !(quirks && r.P(0.02))) {
      // A DC refinement scan uses no table, but encoders reference a defined one.
      int def = -1; for (int sl = 0; sl < 4; ++sl) if (tabs[0][sl].valid && (def < 0 || r.P(0.3))) def = sl;
      if (def >= 0) for (auto& x : s.td) if (!tabs[0][x].valid) x = def;
    }
    for (int cls = 0; cls < 2; ++cls) for (int sl = 0; sl < 4; ++sl) {
      bool any = false; for (int k = 0; k < 256; ++k) if (freq[cls][sl][k]) any = true;
      // A slot referenced by the scan must be defined even if unused (legal).
      bool referenced = false;
      for (size_t i = 0; i < s.comps.size(); ++i) {
        if (cls == 0 && s.td[i] == sl && s.Ss == 0 && s.Ah == 0) referenced = true;
        if (cls == 1 && s.ta[i] == sl && s.Se > 0) referenced = true;
      }
      if (!any && !referenced) continue;
      HTab& t = tabs[cls][sl];
      if (t.valid && t.Covers(freq[cls][sl]) && (r.P(0.8) || ndht > 200)) continue;
      HTab st = Stock(cls, cls == 0 ? (sl ? 1 : 0) : (sl ? 1 : 0));
      int how = o.photo ? 0 : r.U(4);
      if (how <= 1 && !o.photo && r.P(0.2)) {  // almost a stock table: two symbols change places
        int a = r.U((uint32_t)st.vals.size()), b = r.P(0.3) ? (a + 1) % (int)st.vals.size() : r.P(0.5) ? (int)st.vals.size() - 1 - r.U(std::min<int>(60, (int)st.vals.size())) : r.U((uint32_t)st.vals.size());
        if (r.P(0.4)) a = (int)st.vals.size() - 1 - r.U(std::min<int>(100, (int)st.vals.size()));
        std::swap(st.vals[a], st.vals[b]); st.Finish(); if (a != b) info->F("near-stock-huffman");
      }
      if (how <= 1 && st.Covers(freq[cls][sl])) { t = st; info->F("stock-huffman"); }
      else if (how == 2 && any) { t = RandomTab(freq[cls][sl], cls, &r, o.legal); info->F("random-huffman"); }
      else { if (!any) freq[cls][sl][cls == 0 ? 0 : 0] = 1; t = Optimal(freq[cls][sl], &r); info->F("optimal-huffman"); }
      emit.push_back({cls, sl});
    }
    if (quirks && r.P(0.03)) { // redundant or unused table
      int cls = r.U(2), sl = r.U(4); bool in = false; for (auto& e : emit) if (e.first == cls && e.second == sl) in = true;
      if (!in) { if (!tabs[cls][sl].valid) tabs[cls][sl] = Stock(cls, r.U(2)); emit.push_back({cls, sl}); info->F("redundant-dht"); }
    }
    for (int tries = 0; quirks && o.redefine_tables > 0 && tries < 4000; ++tries) {
      int cls = r.U(2), sl = r.U(4); bool used = false; for (auto& e : emit) if (e.first == cls && e.second == sl) used = true;
      for (size_t i = 0; i < s.comps.size(); ++i) if ((cls ? s.ta[i] : s.td[i]) == sl) used = true;
      if (used) continue;
      if (r.P(0.4)) tabs[cls][sl] = RandomTab(freq[cls][sl], cls, &r, false); else tabs[cls][sl] = Stock(cls, r.U(2));
      emit.push_back({cls, sl}); WriteDht({emit.back()}); emit.pop_back(); o.redefine_tables--;
    }
    WriteDht(emit);
    Mark(0xDA);
    B2(6 + 2 * s.comps.size()); B(s.comps.size());
    for (size_t i = 0; i < s.comps.size(); ++i) { B(c[s.comps[i]].id); B(s.td[i] << 4 | s.ta[i]); }
    if (prog) { B(s.Ss); B(s.Se); B(s.Ah << 4 | s.Al); }
    else { B(0); B(63); B(0); }
    BitW w(&out); int rst = 0;
    for (auto& t : toks) {
      if (t.cls == -2) { w.Flush(padmode == 3 ? r.U(3) : padmode, &r); B(0xFF); B(0xD0 + rst); rst = (rst + 1) & 7; info_rst = true; continue; }
      if (t.cls >= 0) { HTab& h = tabs[t.cls][t.slot]; w.Put(h.code[t.sym], h.len[t.sym]); }
      if (t.nbits) w.Put(t.bits, t.nbits);
    }
    w.Flush(padmode == 3 ? r.U(3) : padmode, &r);
  }
  bool info_rst = false;

  void WriteDri() {
    if (dri_done) return;
    Mark(0xDD); B2(4); B2(restart_val); restart = restart_val; dri_done = true; info->F("dri");
  }
  int restart_val = 0;

  void WriteDqt() {
    // tables used: tq
    int ntab = r.R(1, std::min<int>(4, std::max<int>(1, (int)c.size())));
    if (o.photo) ntab = c.size() > 1 ? 2 : 1;
    std::vector<int> slots; std::vector<int> perm = {0, 1, 2, 3};
    if (r.P(0.3)) for (int i = 4; i > 1; --i) std::swap(perm[i - 1], perm[r.U(i)]);
    for (int i = 0; i < ntab; ++i) slots.push_back(perm[i]);
    for (size_t i = 0; i < c.size(); ++i) c[i].tq = slots[std::min<int>(i, ntab - 1)];
    if (r.P(0.2)) for (auto& k : c) k.tq = slots[r.U(ntab)];
    int extra = (quirks && ntab < 4 && r.P(0.1)) ? 1 : 0;  // redefinition / unused
    std::vector<std::vector<int>> vals; std::vector<int> prec, idx;
    for (int i = 0; i < ntab + extra; ++i) {
      std::vector<int> v(64); int kind = o.photo ? 0 : o.quant_extremes ? 7 : r.U(8); int p = 0;
      int q = r.R(1, 63);
      switch (kind) {
        case 0: { int w = r.U(8); for (int k = 0; k < 64; ++k) v[k] = K::kStockQuantizationTables[i > 0][w][k]; if (!o.photo && r.P(0.2)) { int k = r.P(0.3) ? 0 : r.P(0.5) ? 63 - r.U(8) : r.U(64); v[k] = v[k] > 1 && r.P(0.5) ? v[k] - 1 : std::min(255, v[k] + 1); } info->F("dqt-stock"); break; }
        case 1: case 2: for (int k = 0; k < 64; ++k) { int x = (K::kStockQuantizationTables[i > 0][2][k] * q + 16) / 32; v[k] = std::max(1, std::min(255, x)); } break;
        case 3: for (int k = 0; k < 64; ++k) v[k] = r.R(1, 255); break;
        case 4: { int x = r.R(1, 255); for (int k = 0; k < 64; ++k) v[k] = x; break; }
        case 5: case 7: p = 1; for (int k = 0; k < 64; ++k) v[k] = kind == 7 ? (r.P(0.5) ? 65535 - (int)r.U(3) : 1 + (int)r.U(3)) : r.P(0.5) ? r.R(1, 65535) : r.R(1, 300); info->F("dqt16"); break;
        default: p = r.U(2); for (int k = 0; k < 64; ++k) v[k] = std::min(255, 1 + k * q / 20 + (int)r.U(2)); if (p) info->F("dqt16-small"); break;
      }
      if (o.legal && p) { p = 0; for (auto& x : v) x = std::min(x, 255); }
      if (kind == 5 && !p) {}
      vals.push_back(v); prec.push_back(p);
      idx.push_back(i < ntab ? slots[i] : (int)r.U(4));
    }
    int n = ntab + extra, i = 0;
    while (i < n) {
      int m = r.P(0.5) ? n - i : 1;
      Mark(0xDB); int len = 2; for (int j = i; j < i + m; ++j) len += 1 + 64 * (1 + prec[j]);
      B2(len);
      for (int j = i; j < i + m; ++j) { B(prec[j] << 4 | idx[j]); for (int k = 0; k < 64; ++k) { int v = vals[j][kZig[k]]; if (prec[j]) B2(v); else B(v); } }
      i += m;
    }
  }

  void App(int m, const std::string& payload) { Mark(m); B2(payload.size() + 2); out += payload; }
  std::string RandBytes(int n) {
    std::string s; int k = r.U(3);
    for (int i = 0; i < n; ++i) s.push_back(k == 0 ? r.U(256) : k == 1 ? 'a' + r.U(4) : (i * 7 + (i >> 4)) & 255);
    return s;
  }
  // a position in a segment: often the first or the last ones
  size_t MetaAt(size_t n) { return r.P(0.5) ? r.U(n) : r.P(0.5) ? n - 1 - r.U(2) : r.U(3); }
  void OneMeta() {
    switch (r.U(12)) {
      case 0: case 1: {  // JFIF: both inside and just outside the short form
        std::string s("JFIF\0", 5); s.push_back(1); s.push_back(r.R(0, 3) == 0 ? r.U(4) : r.R(1, 2)); s.push_back(r.P(0.9) ? r.U(4) : r.U(256));
        int d = r.P(0.8) ? K::kApp0Densities[r.U(8)] : r.U(65536); int d2 = r.P(0.85) ? d : r.P(0.3) ? r.U(400) : r.P(0.5) ? d ^ 1 << r.U(10) : d + 256 * (1 + r.U(3));
        s.push_back(d >> 8); s.push_back(d); s.push_back(d2 >> 8); s.push_back(d2); s.push_back(r.P(0.95) ? 0 : 1); s.push_back(r.P(0.95) ? 0 : 1);
        if (r.P(0.05)) s += RandBytes(3);
        if (r.P(0.15)) s[r.U(6)] ^= 1 << r.U(8);  // not quite
        App(r.P(0.97) ? 0xE0 : 0xE1 + r.U(15), s); info->F("app0"); break; }
      case 2: { std::string s((const char*)K::AppData_0xe2 + 3, 3161 - 3); s[81] = r.U(256); if (r.P(0.25)) s[MetaAt(s.size())] ^= 1; App(r.P(0.95) ? 0xE2 : 0xE0 + r.U(16), s); info->F("app2-stock"); break; }
      case 3: { std::string s((const char*)K::AppData_0xec + 3, 18 - 3); s[12] = r.U(256); if (r.P(0.25)) s[MetaAt(s.size())] ^= 1; App(r.P(0.95) ? 0xEC : 0xE0 + r.U(16), s); info->F("app12-stock"); break; }
      case 4: { std::string s((const char*)K::AppData_0xee + 3, 15 - 3); s[7] = r.U(256); if (r.P(0.25)) s[MetaAt(s.size())] ^= 1; App(r.P(0.95) ? 0xEE : 0xE0 + r.U(16), s); info->F("app14-stock"); break; }
      case 5: App(0xFE, RandBytes(r.P(0.3) ? 0 : r.U(60))); info->F("com"); break;
      case 6: App(0xE0 + r.U(16), RandBytes(r.P(0.3) ? 0 : r.U(60))); info->F("app-rand"); break;
      case 7: if (!o.simple_meta) { App(0xE1, RandBytes(r.P(0.1) ? 65533 : r.U(5000))); info->F("app-large"); } break;
      default: break;
    }
  }
  void Metas(int lo, int hi) { int n = r.R(lo, hi); for (int i = 0; i < n; ++i) OneMeta(); }

  // APP / COM payload that looks like a nested JPEG header.
  void Shadow() {
    std::string s("Exif\0\0", 6);
    int kind = r.U(4);
    auto sof = [&] { s += std::string("\xFF\xC0\0\x0B\x08\0\x10\0\x10\x01\x01\x11\0", 13); };
    auto dri = [&] { s += std::string("\xFF\xDD\0\x04\0\x05", 6); };
    auto dqt = [&] { s += std::string("\xFF\xDB\0\x43\0", 5); s += std::string(64, (char)(1 + r.U(200))); };
    auto dht = [&] { s += std::string("\xFF\xC4\0\x14\0\x01", 6); s += std::string(15, '\0'); s.push_back(0); };
    s += "\xFF\xD8";
    if (kind == 0 || kind == 3) sof();
    if (kind == 1 || kind == 3) dqt();
    if (kind == 2 || kind == 3) { dri(); dht(); }
    if (r.P(0.3)) s += "\xFF\xD9";
    App(r.P(0.7) ? 0xE1 : 0xFE, s);
    info->F("shadow-segment");
  }

  std::string Run() {
    quirks = !o.legal && !o.photo;
    Frame(); Coeffs(); MakeScans();
    padmode = quirks ? (r.P(0.7) ? 0 : r.R(1, 3)) : 0;
    if (padmode) info->F("padbits=" + std::to_string(padmode));
    bool has_dri = r.P(0.3);
    if (has_dri) {
      restart_val = r.P(0.5) ? r.R(1, std::max(1, mcu_w)) : r.R(1, 3 * mcu_w + 2);
      if (r.P(0.1)) restart_val = 0;
      if (quirks && r.P(0.2)) dri_scan = r.U(scans.size());
    }
    B(0xFF); B(0xD8);
    if (!o.photo) Metas(0, 3); else if (r.P(0.8)) { App(0xE0, std::string("JFIF\0\1\1\0\0\1\0\1\0\0", 14)); }
    while (out.size() < o.meta_bytes) App(0xE1 + r.U(13), RandBytes(r.P(0.7) ? 65533 : 1 + r.U(65533)));
    for (int i = 0; i < o.shadow_segments; ++i) Shadow();
    bool dqt_late = r.P(0.2);
    if (!dqt_late) WriteDqt();
    else { for (auto& k : c) k.tq = 0; }
    std::string save; GenInfo gi = *info;
    if (dqt_late) { // need tq before SOF: generate DQT into a side buffer
      save.swap(out); size_t m0 = info->marks.size(); WriteDqt(); save.swap(out); info->marks.resize(m0);
    }
    if (has_dri && dri_scan < 0 && r.P(0.3)) WriteDri();
    if (!o.photo) Metas(0, 1);
    Mark(prog ? 0xC2 : (r.P(0.85) ? 0xC0 : 0xC1));
    B2(8 + 3 * c.size()); B(8); B2(H); B2(W); B(c.size());
    for (auto& k : c) { B(k.id); B(k.h << 4 | k.v); B(k.tq); }
    if (dqt_late) { out += save; info->F("dqt-after-sof"); }
    if (has_dri && dri_scan < 0 && !dri_done) WriteDri();
    for (size_t i = 0; i < scans.size(); ++i) {
      if (!o.photo && r.P(0.05)) Metas(0, 2);
      WriteScan(i);
    }
    if (quirks && r.P(0.05)) Metas(0, 2);
    Mark(0xD9);
    if (quirks && r.P(0.1)) { out += RandBytes(r.U(r.P(0.1) ? 3000 : 40) + 1); info->F("tail"); }
    if (info_zrl) info->F("extra-zrl");
    if (info_rst) info->F("rst");
    return out;
  }
};

}  // namespace

std::string GenJpeg(uint64_t seed, const GenOptions& opt, GenInfo* info) {
  GenInfo local;
  if (!info) info = &local;
  *info = GenInfo();
  Gen g(seed, opt, info);
  return g.Run();
}

// Changes the segments of a JPEG file as such; their lengths stay right.
static void MutateSegments(std::string* sp, Rng* r) {
  std::string& s = *sp;
  struct Seg { size_t at, len; int m; };
  std::vector<Seg> seg;
  auto b = [&](size_t p) { return p < s.size() ? (int)(uint8_t)s[p] : 0; };
  for (size_t p = 2; p + 4 <= s.size() && seg.size() < 2000;) {
    if (b(p) != 0xFF || b(p + 1) < 0xC0 || (b(p + 1) >= 0xD0 && b(p + 1) <= 0xD8)) { ++p; continue; }
    if (b(p + 1) == 0xD9) break;
    size_t len = 2 + (b(p + 2) << 8 | b(p + 3)); if (p + len > s.size()) break;
    seg.push_back({p, len, b(p + 1)}); p += len;
  }
  auto pick = [&](int m, Seg* o) { std::vector<Seg> v; for (auto& x : seg) if (m < 0 || x.m == m || (m == 0xC0 && x.m >= 0xC0 && x.m <= 0xC2)) v.push_back(x); if (v.empty()) return false; *o = v[r->U(v.size())]; return true; };
  Seg x, y;
  switch (r->U(9)) {
    case 0: case 1: {  // a table loses its last codes; perhaps another one stood in its place before
      if (!pick(0xC4, &x)) return;
      size_t p = x.at + 4, end = x.at + x.len; std::vector<size_t> tab;
      while (p + 17 <= end) { tab.push_back(p); size_t n = 0; for (int k = 1; k <= 16; ++k) n += b(p + k); p += 17 + n; }
      if (tab.empty() || p != end) return;
      size_t t = tab[r->U(tab.size())], n = 0; for (int k = 1; k <= 16; ++k) n += b(t + k);
      std::string old = s.substr(t, 17 + n); int drop = 1 + r->U(r->P(0.5) ? 2 : std::max<int>(1, n));
      size_t m = n; std::string now = old;
      for (int k = 16; k >= 1 && drop > 0; --k) while (drop > 0 && (uint8_t)now[k] > 0) { now[k]--; --drop; --m; }
      now.resize(17 + m);
      size_t len = x.len - 2 - (n - m); s.replace(t, 17 + n, now); s[x.at + 2] = len >> 8; s[x.at + 3] = len & 255;
      if (r->P(0.7)) s.insert(x.at, std::string("\xFF\xC4", 2) + std::string(1, (char)((19 + n) >> 8)) + std::string(1, (char)((19 + n) & 255)) + old);
      break;
    }
    case 2: {  // neighbours change places
      size_t k = seg.size() > 1 ? r->U(seg.size() - 1) : 0; if (seg.size() < 2 || seg[k].at + seg[k].len != seg[k + 1].at) return;
      x = seg[k]; y = seg[k + 1]; s = s.substr(0, x.at) + s.substr(y.at, y.len) + s.substr(x.at, x.len) + s.substr(y.at + y.len);
      break;
    }
    case 3: if (pick(-1, &x)) s.erase(x.at, x.len); break;
    case 4: if (pick(-1, &x) && pick(-1, &y)) { std::string t = s.substr(x.at, x.len); s.insert(y.at, t); } break;
    case 5: {  // code lengths change, their number does not
      if (!pick(0xC4, &x)) return;
      int i = r->R(1, 16), j = r->R(1, 16); size_t p = x.at + 4; if (p + 17 > s.size() || b(p + i) == 0 || b(p + j) == 255) return;
      s[p + i]--; s[p + j]++;
      break;
    }
    case 6: {  // scan header
      if (!pick(0xDA, &x)) return;
      int n = b(x.at + 4); if (x.len != (size_t)(8 + 2 * n) || n == 0) return;
      int q = r->U(5); size_t c = x.at + 5 + 2 * r->U(n), e = x.at + 5 + 2 * n;
      if (q == 0) s[c + 1] = r->U(4) << 4 | r->U(4); else if (q == 1 && n > 1) { size_t d = x.at + 5 + 2 * r->U(n); std::swap(s[c], s[d]); std::swap(s[c + 1], s[d + 1]); }
      else if (q == 2) s[e] = r->U(64); else if (q == 3) s[e + 1] = r->U(64); else s[e + 2] = r->U(14) << 4 | r->U(14);
      break;
    }
    case 7: {  // frame header
      if (!pick(0xC0, &x)) return;
      int n = b(x.at + 9); if (x.len != (size_t)(10 + 3 * n) || n == 0) return;
      int q = r->U(6); size_t c = x.at + 10 + 3 * r->U(n);
      if (q == 0) s[x.at + 6] += r->R(-3, 3); else if (q == 1) s[x.at + 8] += r->R(-3, 3); else if (q == 2) s[c + 1] = r->R(1, 4) << 4 | r->R(1, 4);
      else if (q == 3) s[c + 2] = r->U(4); else if (q == 4) s[c] += r->R(-2, 2); else { size_t d = x.at + 10 + 3 * r->U(n); for (int k = 0; k < 3; ++k) std::swap(s[c + k], s[d + k]); }
      break;
    }
    default: {  // restart interval
      if (pick(0xDD, &x) && x.len == 6) { s[x.at + 4] = r->P(0.7) ? 0 : r->U(256); s[x.at + 5] = r->U(r->P(0.5) ? 4 : 256); }
      else if (pick(0xDA, &x)) { int v = r->U(r->P(0.5) ? 4 : 256); s.insert(x.at, std::string("\xFF\xDD\0\4\0", 5) + std::string(1, (char)v)); }
    }
  }
}
std::string MutateJpeg(const std::string& in, Rng* r) {
  std::string s = in;
  int n = 1 + (r->P(0.4) ? r->U(6) : 0);
  if (s.size() > 4 && r->P(0.3)) { MutateSegments(&s, r); n = r->P(0.7) ? 0 : n; }
  for (int i = 0; i < n && !s.empty(); ++i) {
    // pick a location: header-biased
    size_t hdr = std::min<size_t>(s.size(), 700);
    size_t p = r->P(0.6) ? r->U(hdr) : r->U(s.size());
    if (r->P(0.3)) {  // move to a marker
      for (size_t k = 0; k + 1 < s.size(); ++k) { size_t q = (p + k) % (s.size() - 1); if ((uint8_t)s[q] == 0xFF && (uint8_t)s[q + 1] >= 0xC0) { p = q + r->U(8); break; } }
      if (p >= s.size()) p = s.size() - 1;
    }
    switch (r->U(12)) {
      case 0: case 1: s[p] ^= 1 << r->U(8); break;
      case 2: s[p] = r->U(256); break;
      case 3: { static const int v[] = {0, 1, 2, 3, 0x0F, 0x10, 0x3F, 0x40, 0x7F, 0x80, 0xFE, 0xFF, 0x11, 0x22}; s[p] = v[r->U(14)]; break; }
      case 4: s.erase(p, 1 + r->U(r->P(0.2) ? 200 : 4)); break;
      case 5: { std::string t; int m = 1 + r->U(6); for (int k = 0; k < m; ++k) t.push_back(r->U(256)); s.insert(p, t); break; }
      case 6: { size_t len = 1 + r->U(80); if (p + len > s.size()) len = s.size() - p; std::string t = s.substr(p, len); s.insert(r->U(s.size()), t); break; }
      case 7: s.resize(p); break;
      case 8: { size_t q = r->U(s.size()); size_t len = 1 + r->U(16); for (size_t k = 0; k < len && p + k < s.size() && q + k < s.size(); ++k) s[p + k] = s[q + k]; break; }
      case 9: { static const int m[] = {0xC0, 0xC1, 0xC2, 0xC4, 0xD0, 0xD7, 0xD8, 0xD9, 0xDA, 0xDB, 0xDD, 0xE0, 0xE1, 0xFE, 0xC8, 0xFF}; s.insert(p, std::string(1, (char)0xFF) + std::string(1, (char)m[r->U(16)])); break; }
      case 10: if (p + 1 < s.size()) { s[p] = 0xFF; s[p + 1] = 0xC0 + r->U(64); } break;
      case 11: s[p] = s[p] + (r->P(0.5) ? 1 : -1); break;
    }
  }
  return s;
}
