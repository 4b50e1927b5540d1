// Small deterministic PRNG used by every generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
struct Rng {
  uint64_t s[2];
  static uint64_t Mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed, uint64_t stream = 0) {
    s[0] = Mix(seed * 0x2545F4914F6CDD1Dull + Mix(stream));
    s[1] = Mix(s[0] ^ 0xD1B54A32D192ED03ull);
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t Next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  // [0, n)
  uint32_t U(uint32_t n) { return n ? (uint32_t)((Next() >> 11) % n) : 0; }
  // [lo, hi]
  int R(int lo, int hi) { return lo + (int)U((uint32_t)(hi - lo + 1)); }
  bool P(double p) { return (double)(Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double D() { return (double)(Next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[U((uint32_t)v.size())]; }
};
