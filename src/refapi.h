// C interface of the pinned snapshot of the codec (see /verif/ref), built into
// a shared object of its own so that no symbol is shared with the code under
// test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <string>
extern "C" {
// returns BrunsliStatus (0 = OK); 100 = decoded but not serialisable
int ref_decode(const uint8_t* in, size_t n, uint8_t** out, size_t* out_n);
// 1 ok, 0 encoder failed, -1 reader failed
int ref_encode(const uint8_t* in, size_t n, int version, uint8_t** out, size_t* out_n);
int ref_encode_variant(const uint8_t* in, size_t n, int version, uint64_t seed, uint8_t** out, size_t* out_n);
int ref_encode_perturbed(const uint8_t* in, size_t n, int version, uint64_t seed, int kind, uint8_t** out, size_t* out_n);
int ref_progress(const uint8_t* in, size_t n, const size_t* cuts, size_t ncuts, size_t* made);
int ref_bypass(const uint8_t* in, size_t n, uint8_t** out, size_t* out_n);
}
inline int RefDecode(const std::string& in, std::string* out) {
  uint8_t* p = nullptr; size_t n = 0;
  int r = ref_decode((const uint8_t*)in.data(), in.size(), &p, &n);
  out->assign((char*)p, p ? n : 0); free(p);
  return r;
}
inline int RefEncode(const std::string& in, int version, std::string* out) {
  uint8_t* p = nullptr; size_t n = 0;
  int r = ref_encode((const uint8_t*)in.data(), in.size(), version, &p, &n);
  out->assign((char*)p, p ? n : 0); free(p);
  return r;
}
// As RefEncode, by an encoder that takes other decisions.
inline int RefVariant(const std::string& in, int version, uint64_t seed, std::string* out) {
  uint8_t* p = nullptr; size_t n = 0;
  int r = ref_encode_variant((const uint8_t*)in.data(), in.size(), version, seed, &p, &n);
  out->assign((char*)p, p ? n : 0); free(p);
  return r;
}
// A well-formed stream with inconsistent content; kind in [0, 8).
inline int RefPerturbed(const std::string& in, int version, uint64_t seed, int kind, std::string* out) {
  uint8_t* p = nullptr; size_t n = 0;
  int r = ref_encode_perturbed((const uint8_t*)in.data(), in.size(), version, seed, kind, &p, &n);
  out->assign((char*)p, p ? n : 0); free(p);
  return r;
}
inline int RefBypass(const std::string& in, std::string* out) {
  uint8_t* p = nullptr; size_t n = 0;
  int r = ref_bypass((const uint8_t*)in.data(), in.size(), &p, &n);
  out->assign((char*)p, p ? n : 0); free(p);
  return r;
}
