// Harness framework shared by all monitors.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include "rng.h"

inline uint64_t Mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
  return Mix(h ^ n);
}
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }
inline std::string Hex(const std::string& s, size_t max = 48) {
  static const char* d = "0123456789abcdef"; std::string r;
  for (size_t i = 0; i < s.size() && i < max; ++i) { r += d[(uint8_t)s[i] >> 4]; r += d[s[i] & 15]; }
  if (s.size() > max) r += "..."; return r;
}
inline std::string JsonStr(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}

// Progress block, shared with the driver through a file, so that a crash or a
// hang is attributed to the case (and step) that was running.
struct Progress { volatile int64_t idx; volatile int64_t done; char step[256]; volatile uint64_t blob_len; char blob[1 << 21]; };

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VF_SANITIZED 1
#endif
#endif
#ifdef VF_SANITIZED
constexpr bool kSanitized = true;
#else
constexpr bool kSanitized = false;
#endif

struct Ctx {
  std::string prop, tier = "quick", scratch = ".";
  uint64_t seed = 1;
  int shard = 0, nshards = 1;
  long cases = 100, only = -1, start = 0;
  double scale = 1;
  std::vector<std::string> args;
  Progress* pr = nullptr;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t evaluations = 0;
  std::map<std::string, int> vcount;
  long cur = 0;
  int cpu_limit = 40;
  bool thorough() const { return tier == "thorough"; }
  bool Arg(const char* a) const { for (auto& x : args) if (x == a) return true; return false; }

  Rng CaseRng(long idx, uint64_t salt = 0) { return Rng(Mix(seed * 0x9E3779B97F4A7C15ULL ^ Mix((uint64_t)idx + 0x1234) ^ HashStr(prop) ^ salt * 77)); }
  void Step(const char* s) { if (pr) { strncpy(pr->step, s, 255); } }
  // Puts the input of the current step where the driver finds it after a crash.
  void Input(const std::string& s) { if (pr) { size_t n = s.size() < sizeof(pr->blob) ? s.size() : sizeof(pr->blob); memcpy(pr->blob, s.data(), n); pr->blob_len = n; } }
  void Begin(long idx) { cur = idx; if (pr) { pr->idx = idx; pr->blob_len = 0; } Step("begin"); ArmCpu(); }
  void ArmCpu() { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &t, nullptr); }
  void Ev(const std::string& k, uint64_t n = 1) { events[k] += n; }
  void Nontrivial(uint64_t h) { distinct.insert(h); }
  void Sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void Violation(const std::string& key, const std::string& detail, const std::string& blob = "") {
    int k = vcount[key]++;
    Ev("violation-events");
    if (k >= 3) return;
    std::string bp;
    if (!blob.empty()) {
      bp = scratch + "/viol_" + std::to_string(shard) + "_" + std::to_string(cur) + "_" + std::to_string(HashStr(key) % 100000) + ".bin";
      FILE* f = fopen(bp.c_str(), "wb"); if (f) { fwrite(blob.data(), 1, blob.size(), f); fclose(f); }
    }
    FILE* f = fopen((scratch + "/shard_" + std::to_string(shard) + ".viol").c_str(), "a");
    if (f) {
      fprintf(f, "{\"key\": %s, \"detail\": %s, \"idx\": %ld, \"seed\": %llu, \"blob\": %s}\n", JsonStr(key).c_str(), JsonStr(detail).c_str(), cur, (unsigned long long)seed, JsonStr(bp).c_str());
      fclose(f);
    }
  }
  // Iterates over the cases of this shard.
  template <typename F> void Cases(F f, uint64_t salt = 0) {
    if (only >= 0) { Begin(only); Rng r = CaseRng(only, salt); f(only, r); pr->done = 1; return; }
    for (long i = start; i < cases; ++i) {
      if (i % nshards != shard) continue;
      Begin(i); Rng r = CaseRng(i, salt); f(i, r);
    }
    if (pr) pr->done = 1;
  }
};

typedef void (*PropFn)(Ctx&);
struct Reg { Reg(const char* name, PropFn fn); };
#define PROPERTY(name) static void Run_##name(Ctx&); static Reg reg_##name(#name, Run_##name); static void Run_##name(Ctx& c)

// A buffer whose end touches an inaccessible page (and whose start has canaries
// before it).
struct GuardBuf {
  uint8_t* map = nullptr; size_t maplen = 0; uint8_t* p = nullptr; size_t n = 0;
  explicit GuardBuf(size_t len, uint8_t fill = 0xA5) : n(len) {
    size_t pg = 4096; size_t body = (len + 64 + pg - 1) / pg * pg; maplen = body + pg;
    map = (uint8_t*)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(map + body, pg, PROT_NONE);
    p = map + body - len; memset(map, fill, body);
    this->fill = fill;
  }
  GuardBuf(const std::string& s) : GuardBuf(s.size()) { memcpy(p, s.data(), s.size()); }
  ~GuardBuf() { munmap(map, maplen); }
  bool FrontIntact() const { for (uint8_t* q = map; q < p; ++q) if (*q != fill) return false; return true; }
  GuardBuf(const GuardBuf&) = delete;
  uint8_t fill;
};
