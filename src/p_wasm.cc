// The WebAssembly wrapper (wasm/codec.cc), run on the host: the wrapper keeps
// pointers in 32-bit fields, so this program is not position independent and
// its heap stays below 4 GiB. Allocation kinds are tracked.
#include <malloc.h>
#include <cstdlib>
#include <new>
#include "pool.h"

extern "C" {
std::string* BrunsliToJpeg(const uint8_t* data, size_t length);
std::string* JpegToBrunsli(const uint8_t* data, size_t length);
uint32_t* BrunsliDecoderInit();
uint32_t BrunsliDecoderProcess(uint32_t* instance);
void BrunsliDecoderCleanup(uint32_t* instance);
const char* GetJpegData(std::string*); size_t GetJpegLength(std::string*); void FreeJpeg(std::string*);
const char* GetBrunsliData(std::string*); size_t GetBrunsliLength(std::string*); void FreeBrunsli(std::string*);
void* __real_malloc(size_t); void __real_free(void*);
}
// A small open-addressing table of live blocks made while `on`.
static const int kSlots = 1 << 16;
static struct { void* p; char kind; size_t n; } slots[kSlots];
static bool on = false; static long live = 0; static size_t live_bytes = 0; static const char* mismatch = nullptr;
static void Note(void* p, char kind, size_t n) { if (!on || !p) return; size_t h = Mix((uint64_t)p) % kSlots; while (slots[h].p) h = (h + 1) % kSlots; slots[h].p = p; slots[h].kind = kind; slots[h].n = n; live++; live_bytes += n; }
static void Gone(void* p, char kind) {
  if (!on || !p) return; size_t h = Mix((uint64_t)p) % kSlots; while (slots[h].p && slots[h].p != p) h = (h + 1) % kSlots;
  if (!slots[h].p) return; if (slots[h].kind != kind) mismatch = kind == 'm' ? "free" : kind == 'a' ? "delete[]" : "delete";
  live--; live_bytes -= slots[h].n; slots[h].p = nullptr; size_t g = (h + 1) % kSlots;  // re-insert the rest of the cluster
  while (slots[g].p) { auto s = slots[g]; slots[g].p = nullptr; size_t q = Mix((uint64_t)s.p) % kSlots; while (slots[q].p) q = (q + 1) % kSlots; slots[q] = s; g = (g + 1) % kSlots; }
}
extern "C" void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); Note(p, 'm', n); return p; }
extern "C" void __wrap_free(void* p) { Gone(p, 'm'); __real_free(p); }
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); Note(p, 'n', n); return p; }
void* operator new[](size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); Note(p, 'a', n); return p; }
void operator delete(void* p) noexcept { Gone(p, 'n'); __real_free(p); }
void operator delete[](void* p) noexcept { Gone(p, 'a'); __real_free(p); }
void operator delete(void* p, size_t) noexcept { Gone(p, 'n'); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { Gone(p, 'a'); __real_free(p); }

// Feeds `b` in chunks the way the JavaScript client does. Returns the last result.
static int Feed(Ctx& c, Rng& r, const std::string& b, size_t maxchunk, std::string* out, bool abandon) {
  out->clear(); on = true; live = 0; live_bytes = 0; mismatch = nullptr;
  uint32_t* in = BrunsliDecoderInit(); int res = 0; size_t pos = 0; long calls = 0, full_windows = 0;
  uint32_t cap = in[1]; uint32_t buf = in[2], obuf = in[4]; if (cap < 1) c.Violation("no-input-capacity", "", b);
  uint32_t dec = in[0]; bool more = false;
  while (true) {
    size_t n = more ? 0 : std::min<size_t>(b.size() - pos, std::min<size_t>(cap, maxchunk ? 1 + r.U(maxchunk) : cap));
    memcpy((void*)(uintptr_t)buf, b.data() + pos, n); memset((uint8_t*)(uintptr_t)buf + n, 0x5A, cap - n); in[3] = n; pos += n;
    if (abandon && r.P(0.2)) break;
    res = BrunsliDecoderProcess(in); calls++; uint32_t got = in[5];
    if (in[0] != dec || in[1] != cap || in[2] != buf || in[4] != obuf) { c.Violation("instance-fields-changed", "", b); break; }
    if (got > 65536) { c.Violation("output-length-wrong", std::to_string(got), b); break; }
    on = false; out->append((char*)(uintptr_t)obuf, got); on = true; memset((void*)(uintptr_t)obuf, 0xA5, got);
    if (res > 2) c.Violation("undocumented-result", std::to_string(res), b);
    if (res == 1 && pos < b.size()) { more = false; continue; }  // the rest must be refused
    if (res != 0) break;
    more = got == 65536; if (more) full_windows++;
    if (!more && pos >= b.size() && got == 0) break;
    if (calls > 200000) { c.Violation("no-progress", "", b); break; }
  }
  BrunsliDecoderCleanup(in); on = false; c.Ev("process-calls", calls); c.Ev("full-output-windows", full_windows);
  if (mismatch) c.Violation(std::string("allocation-kind-mismatch-") + mismatch, "", b);
  if (live) c.Violation("instance-not-released", std::to_string(live) + " blocks, " + std::to_string(live_bytes) + " bytes", b);
  return res;
}
PROPERTY(W01) {
  mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_ARENA_MAX, 1);
  void* probe = __real_malloc(1 << 20); if ((uintptr_t)probe >> 32) { fprintf(stderr, "heap is not low: %p\n", probe); _exit(3); } __real_free(probe);
  BrunsliDecoderCleanup(nullptr); if (GetJpegData(nullptr) || GetJpegLength(nullptr) || GetBrunsliData(nullptr) || GetBrunsliLength(nullptr)) c.Violation("null-result-not-handled", "");
  { Rng r(1); Jpg j = PickJpeg(&r, false, 0, 60); std::string b, o; Encode(j.bytes, &b); uint32_t* in = BrunsliDecoderInit(); BrunsliDecoderCleanup(in); FreeJpeg(BrunsliToJpeg(U8(b), b.size())); FreeBrunsli(JpegToBrunsli(U8(j.bytes), j.bytes.size())); }  // one-time initialisation
  freopen("/dev/null", "w", stdout);
  c.Cases([&](long idx, Rng& r) {
    Jpg j; std::string k, b;
    if (r.P(0.25)) { GenOptions o; o.max_blocks = 6000; o.fixed_w = r.R(200, 700); o.fixed_h = r.R(200, 700); o.photo = true; j.kind = "large"; j.bytes = GenJpeg(r.Next(), o, &j.info); } else j = PickJpeg(&r, false, 0.3, 300);
    c.Input(j.bytes); c.evaluations++; c.Ev("kind:" + j.kind);
    // encoder
    std::string want; bool ok = Encode(j.bytes, &want); c.Step("JpegToBrunsli"); on = true; live = 0; live_bytes = 0; mismatch = nullptr; std::string* e; { GuardBuf g(j.bytes); on = true; e = JpegToBrunsli(g.p, j.bytes.size()); on = false; }
    if (!!e != ok) c.Violation("encoder-verdict-differs", "", j.bytes);
    else if (e) { std::string got(GetBrunsliData(e), GetBrunsliLength(e)); std::string back; c.Ev("encoded"); if (Decode(got, &back) || back != j.bytes) c.Violation("encoder-output-wrong", "", j.bytes); }
    on = true; FreeBrunsli(e); on = false; if (mismatch) c.Violation("encoder-allocation-kind-mismatch", mismatch, j.bytes); if (live) c.Violation("encoder-result-not-released", std::to_string(live_bytes), j.bytes);
    if (!ok) Bypass(j.bytes, &b), k = "bypass"; else b = PickBrn(&r, j.bytes, &k);
    if (b.empty()) { c.Ev("no-stream"); return; }
    bool valid = true; if (r.P(0.3)) { std::string w; b = r.P(0.3) ? b.substr(0, r.U(b.size())) : MutateBrn(b, b, &r, &w); k += "+damaged"; valid = false; }
    c.Input(b); c.Nontrivial(HashStr(b)); c.Ev("stream:" + k);
    std::string full; int st = Decode(b, &full); if (valid && st) c.Violation("valid-stream-rejected", std::to_string(st), b);
    c.Step("BrunsliToJpeg"); live = 0; live_bytes = 0; mismatch = nullptr; std::string* d; { GuardBuf g(b); on = true; d = BrunsliToJpeg(g.p, b.size()); on = false; }
    if (!!d != (st == 0)) c.Violation("decoder-verdict-differs", std::to_string(st), b); else if (d && (GetJpegLength(d) != full.size() || memcmp(GetJpegData(d), full.data(), full.size()))) c.Violation("decoder-output-wrong", "", b);
    on = true; FreeJpeg(d); on = false; if (mismatch) c.Violation("decoder-allocation-kind-mismatch", mismatch, b); if (live) c.Violation("decoder-result-not-released", std::to_string(live_bytes), b);
    for (int q = 0; q < (b.size() < 4000 ? 3 : 1); ++q) {
      std::string out; size_t mc = q == 0 ? 0 : q == 1 ? 1 + r.U(20) : 1 + r.U(3000); if (b.size() > 30000 && mc && mc < 500) mc += 2000; c.Step("incremental"); int res = Feed(c, r, b, mc, &out, false); c.Ev("incremental-result-" + std::to_string(res));
      if ((st == 0) != (res == 1)) c.Violation("incremental-verdict-differs", "one-shot " + std::to_string(st) + " incremental " + std::to_string(res) + " chunk " + std::to_string(mc), b);
      else if (st == 0 && out != full) c.Violation("incremental-output-differs", "chunk " + std::to_string(mc), b);
    }
    if (r.P(0.3)) { std::string out; c.Step("abandoned"); Feed(c, r, b, 1 + r.U(2000), &out, true); c.Ev("abandoned"); }
    c.Sample(k + " " + std::to_string(b.size()) + "B, one-shot status " + std::to_string(st));
  });
}
