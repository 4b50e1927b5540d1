// Independent reader/writer of the brunsli container (sections and varints),
// used to build hostile streams and as an oracle of container rules.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <brotli/decode.h>
#include <brotli/encode.h>
#include "rng.h"

struct Sec {
  int tag = 0; int wire = 2;      // 2 = length delimited, 0 = varint
  std::string body;               // for wire 2
  uint64_t value = 0;             // for wire 0
  int lenbytes = 0;               // 0 = minimal varint
  int64_t len_override = -1;      // declared length, if it lies
  size_t begin = 0, body_begin = 0, end = 0;  // offsets in the parsed stream
};

inline bool RdVar(const std::string& s, size_t* p, uint64_t* v, int* nb) {
  *v = 0; int sh = 0; *nb = 0;
  while (*p < s.size() && *nb < 10) {
    uint8_t b = s[(*p)++]; (*nb)++; *v |= (uint64_t)(b & 127) << sh; sh += 7;
    if (!(b & 128)) return true;
  }
  return false;
}
inline std::string Var(uint64_t v, int nb = 0) {
  std::string r;
  do { uint8_t b = v & 127; v >>= 7; bool more = v || (int)r.size() + 1 < nb; r.push_back(b | (more ? 128 : 0)); } while (v || (int)r.size() < nb);
  return r;
}
// Parses [6, end) into sections. False if malformed.
inline bool ParseSecs(const std::string& s, std::vector<Sec>* out, size_t pos = 6) {
  out->clear();
  while (pos < s.size()) {
    Sec e; e.begin = pos; uint8_t m = s[pos++]; e.tag = m >> 3; e.wire = m & 7;
    if (e.wire != 0 && e.wire != 2) return false;
    uint64_t v; int nb; if (!RdVar(s, &pos, &v, &nb)) return false;
    e.lenbytes = nb;
    if (e.wire == 0) { e.value = v; e.body_begin = pos; }
    else { if (v > s.size() - pos) return false; e.body_begin = pos; e.body = s.substr(pos, v); pos += v; }
    e.end = pos; out->push_back(e);
  }
  return true;
}
inline std::string EmitSecs(const std::vector<Sec>& v) {
  std::string s;
  for (auto& e : v) {
    s.push_back((char)(e.tag << 3 | e.wire));
    if (e.wire == 0) s += Var(e.value, e.lenbytes);
    else {
      uint64_t n = e.len_override >= 0 ? (uint64_t)e.len_override : e.body.size();
      s += Var(n, e.lenbytes); s += e.body;
    }
  }
  return s;
}
static const char kSig[] = "\x0a\x04\x42\xd2\xd5\x4e";
inline std::string BuildBrn(const std::vector<Sec>& v) { return std::string(kSig, 6) + EmitSecs(v); }

inline std::string BrotliPack(const std::string& s, int q = 5) {
  size_t n = BrotliEncoderMaxCompressedSize(s.size()) + 64; std::string o(n, 0);
  if (!BrotliEncoderCompress(q, 18, BROTLI_MODE_GENERIC, s.size(), (const uint8_t*)s.data(), &n, (uint8_t*)&o[0])) return "";
  o.resize(n); return o;
}
inline bool BrotliUnpack(const std::string& s, size_t n, std::string* out) {
  if (n > (64u << 20)) return false;
  out->assign(n, 0); size_t m = n;
  return BrotliDecoderDecompress(s.size(), (const uint8_t*)s.data(), &m, (uint8_t*)&(*out)[0]) == BROTLI_DECODER_RESULT_SUCCESS && m == n;
}
// Metadata section body <-> plain metadata bytes.
inline bool MetaPlain(const std::string& body, std::string* out) {
  if (body.size() <= 1) { *out = body; return true; }
  size_t p = 0; uint64_t n; int nb; if (!RdVar(body, &p, &n, &nb)) return false;
  return BrotliUnpack(body.substr(p), n, out);
}
inline std::string MetaBody(const std::string& plain) {
  if (plain.size() <= 1) return plain;
  return Var(plain.size()) + BrotliPack(plain);
}

// Blind byte mutations.
inline void MutBytes(std::string* s, Rng* r, int n) {
  for (int i = 0; i < n && !s->empty(); ++i) {
    size_t p = r->P(0.3) ? r->U(std::min<size_t>(s->size(), 24)) : r->U(s->size());
    switch (r->U(9)) {
      case 0: case 1: case 2: (*s)[p] ^= 1 << r->U(8); break;
      case 3: (*s)[p] = r->U(256); break;
      case 4: { static const int v[] = {0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x40, 0x3F}; (*s)[p] = v[r->U(8)]; break; }
      case 5: s->erase(p, 1 + r->U(r->P(0.2) ? 60 : 3)); break;
      case 6: { std::string t; int m = 1 + r->U(4); for (int k = 0; k < m; ++k) t.push_back(r->U(256)); s->insert(p, t); break; }
      case 7: { size_t q = r->U(s->size()), l = 1 + r->U(12); for (size_t k = 0; k < l && p + k < s->size() && q + k < s->size(); ++k) (*s)[p + k] = (*s)[q + k]; break; }
      case 8: { size_t l = 1 + r->U(16); for (size_t k = 0; k < l && p + k < s->size(); ++k) (*s)[p + k] = r->U(256); break; }
    }
  }
}

// Structure-aware mutation of a valid stream. `other` is spliced in sometimes.
// what: label of the mutation, for coverage counts.
inline std::string MutateBrn(const std::string& in, const std::string& other, Rng* r, std::string* what) {
  std::vector<Sec> v, w;
  if (in.size() < 6 || !ParseSecs(in, &v) || v.empty()) { std::string s = in; MutBytes(&s, r, 1 + r->U(4)); *what = "blind"; return s; }
  int n = 1 + (r->P(0.25) ? r->U(4) : 0);
  *what = "";
  auto find = [&](int tag) { for (size_t i = 0; i < v.size(); ++i) if (v[i].tag == tag) return (int)i; return -1; };
  bool raw = false;
  for (int k = 0; k < n; ++k) {
    int i = r->U(v.size());
    switch (r->U(16)) {
      case 0: case 1: { int t = r->P(0.5) ? 4 + r->U(5) : v[i].tag; int j = find(t); if (j < 0) j = i; MutBytes(&v[j].body, r, 1 + r->U(4)); *what += "body" + std::to_string(v[j].tag) + ","; break; }
      case 2: { int j = find(4); if (j < 0) j = i; MutBytes(&v[j].body, r, 1 + r->U(3)); *what += "body" + std::to_string(v[j].tag) + ","; break; }
      case 3: { int j = find(6); if (j < 0) j = i; MutBytes(&v[j].body, r, 1 + r->U(3)); *what += "body" + std::to_string(v[j].tag) + ","; break; }
      case 4: { int j = find(5); if (j < 0) j = i; MutBytes(&v[j].body, r, 1 + r->U(2)); *what += "body" + std::to_string(v[j].tag) + ","; break; }
      case 5: case 6: {  // header items
        int j = find(2); if (j < 0) break;
        std::vector<Sec> it; if (!ParseSecs(v[j].body, &it, 0) || it.empty()) { MutBytes(&v[j].body, r, 1); *what += "hdrblind,"; break; }
        int q = r->U(it.size());
        static const uint64_t vals[] = {0, 1, 2, 3, 4, 8, 9, 10, 11, 15, 16, 17, 31, 255, 256, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFF, 0x100000000ull, 1ull << 62};
        switch (r->U(7)) {
          case 0: it[q].value = vals[r->U(21)]; it[q].lenbytes = 0; break;
          case 1: it[q].value += r->R(-2, 2); it[q].lenbytes = 0; break;
          case 2: it[q].value ^= 1ull << r->U(18); it[q].lenbytes = 0; break;
          case 3: it[q].tag = r->U(16); break;
          case 4: it.erase(it.begin() + q); break;
          case 5: { Sec e; e.tag = r->R(1, 15); e.wire = r->P(0.5) ? 0 : 2; e.value = r->U(300); e.body = std::string(r->U(4), 'x'); it.insert(it.begin() + r->U(it.size() + 1), e); break; }
          case 6: it[q].wire ^= 2; if (it[q].wire == 2) it[q].body = std::string(r->U(3), 1); break;
        }
        v[j].body = EmitSecs(it); v[j].lenbytes = 0; *what += "header,"; break; }
      case 7: { v.erase(v.begin() + i); *what += "drop,"; break; }
      case 8: { Sec e = v[i]; v.insert(v.begin() + r->U(v.size() + 1), e); *what += "dup,"; break; }
      case 9: { int j = r->U(v.size()); std::swap(v[i], v[j]); *what += "swap,"; break; }
      case 10: { Sec e; e.tag = r->P(0.7) ? r->R(10, 15) : r->R(0, 31); e.wire = r->P(0.4) ? 0 : 2; e.value = r->Next() >> r->U(64); e.body = std::string(r->U(r->P(0.1) ? 3000 : 20), 'u'); e.lenbytes = r->P(0.2) ? r->U(12) : 0; v.insert(v.begin() + r->U(v.size() + 1), e); *what += "unknown,"; break; }
      case 11: { v[i].len_override = r->P(0.5) ? (int64_t)v[i].body.size() + r->R(-3, 3) : (int64_t)(r->Next() >> (1 + r->U(62))); if (v[i].len_override < 0) v[i].len_override = 0; if (r->P(0.5)) v[i].lenbytes = 0; *what += "len,"; break; }
      case 12: {  // metadata
        int j = find(3); if (j < 0) break; std::string p; if (!MetaPlain(v[j].body, &p)) { MutBytes(&v[j].body, r, 1); *what += "metabrotli,"; break; }
        int q = r->U(7);
        if (q == 6) { size_t z = 0; uint64_t m; int nb; if (v[j].body.size() > 1 && RdVar(v[j].body, &z, &m, &nb)) { static const int dl[] = {-1, 1, 2, 100, -100, 1 << 16}; v[j].body = Var(std::max<int64_t>(0, (int64_t)m + dl[r->U(6)])) + v[j].body.substr(z); v[j].lenbytes = 0; } *what += "metasize,"; break; }
        if (q == 0) MutBytes(&p, r, 1 + r->U(3));
        else if (q == 1) p += std::string(1, (char)(r->P(0.5) ? 0xD9 : 0xE0 + r->U(31))) + std::string(r->U(6), (char)r->U(4));
        else if (q == 2 && !p.empty()) p.resize(r->U(p.size()));
        else if (q == 3) p.insert(0, std::string("\x80\x01", 2));
        else if (q == 4) p += std::string("\xe1\x00\x05""abc", 6);
        else p += std::string("\xfe\x00\x02", 3);
        v[j].body = MetaBody(p);
        if (r->P(0.1) && v[j].body.size() > 2) MutBytes(&v[j].body, r, 1);
        v[j].lenbytes = 0; *what += "meta,"; break; }
      case 13: { if (ParseSecs(other, &w) && !w.empty()) { int t = r->U(w.size()); int j = find(w[t].tag); if (j >= 0) v[j] = w[t]; else v.push_back(w[t]); *what += "splice" + std::to_string(w[t].tag) + ","; } break; }
      case 14: { if (v[i].wire == 2) v[i].lenbytes = r->R(0, 11); *what += "lenbytes,"; break; }
      case 15: raw = true; break;
    }
    if (v.empty()) break;
  }
  for (auto& e : v) if (e.len_override < 0 && e.wire == 2) { uint64_t m = 1ull << (7 * (e.lenbytes ? std::min(e.lenbytes, 9) : 9)); if (e.body.size() >= m) e.lenbytes = 0; }
  std::string s = BuildBrn(v);
  if (raw) { MutBytes(&s, r, 1 + r->U(3)); *what += "raw,"; }
  if (r->P(0.05) && !s.empty()) { s.resize(r->U(s.size())); *what += "cut,"; }
  if (r->P(0.05)) { s += std::string(1 + r->U(4), (char)r->U(256)); *what += "trail,"; }
  return s;
}
