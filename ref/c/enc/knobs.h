// Hooks of the verification harness: lets the pinned encoder take random but
// conforming decisions, so that its streams stand for those of any other
// encoder of the format.
#ifndef BRUNSLI_REF_KNOBS_H_
#define BRUNSLI_REF_KNOBS_H_
#include <cstddef>
#include <cstdint>
namespace brunsli {
struct Knobs {
  bool on = false;
  uint64_t s = 0;
  double share[12] = {0};
  uint64_t Next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  size_t U(size_t n) { return n ? Next() % n : 0; }
  bool Take(int what) { return on && (Next() >> 11) * (1.0 / 9007199254740992.0) < share[what]; }
};
Knobs& TheKnobs();
enum { kKnobContextBits, kKnobOrder, kKnobClusters, kKnobMap, kKnobCounts, kKnobQuant, kKnobHuffman, kKnobIds, kKnobBrotli, kKnobLength, kKnobMtf };
}  // namespace brunsli
#endif
