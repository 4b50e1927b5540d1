// Coding primitives, through the functions the project's own tests use.
#include <algorithm>
#include <queue>
#include "h.h"
#include <c/common/context.h>
#include <c/common/distributions.h>
#include <c/common/lehmer_code.h>
#include <c/common/quant_matrix.h>
#include <c/dec/arith_decode.h>
#include <c/dec/bit_reader.h>
#include <c/dec/brunsli_input.h>
#include <c/dec/huffman_table.h>
#include <c/enc/huffman_tree.h>
namespace B = brunsli;

// Bit reader against a model that knows the whole input.
PROPERTY(P01) {
  c.Cases([&](long idx, Rng& r) {
    c.evaluations++; std::string s(r.P(0.5) ? r.U(12) : r.U(400), 0); int style = r.U(3); for (auto& ch : s) ch = style == 0 ? r.U(256) : style == 1 ? 0xFF : (r.P(0.5) ? 0 : 1 << r.U(8));
    c.Input(s); c.Nontrivial(HashStr(s) ^ idx);
    auto bit = [&](uint64_t p) -> uint32_t { return p / 8 < s.size() ? ((uint8_t)s[p / 8] >> (p & 7)) & 1 : 0; };
    auto bits = [&](uint64_t p, uint32_t n) { uint32_t v = 0; for (uint32_t k = 0; k < n; ++k) v |= bit(p + k) << k; return v; };
    B::BrunsliBitReader br; c.Step("init"); B::BrunsliBitReaderInit(&br); uint64_t pos = 0; size_t fed = 0; bool past = false; bool optimistic = r.P(0.2);
    while (!past) {
      // next piece; bytes given back by Suspend come again
      size_t start = (pos + 7) / 8; size_t n = optimistic ? s.size() - start : std::min<size_t>(s.size() - start, r.P(0.3) ? r.U(3) : r.U(40)); size_t end = start + n; GuardBuf g(s.substr(start, n));
      c.Step("resume"); B::BrunsliBitReaderResume(&br, g.p, n); if (optimistic) B::BrunsliBitReaderSetOptimistic(&br);
      int ops = r.U(30); c.Ev("chunks");
      for (int k = 0; k < ops && !past; ++k) {
        uint32_t m = r.P(0.2) ? r.U(2) : r.U(25); uint64_t left = end * 8 - pos; c.Step("read");
        if (optimistic) { if (!B::BrunsliBitReaderCanRead(&br, m)) c.Violation("optimistic-refuses", "", s); }
        else if (B::BrunsliBitReaderIsHealthy(&br)) {  // normalised
          bool can = B::BrunsliBitReaderCanRead(&br, m); c.Ev("can-read");
          if (can != (m <= left)) { c.Violation("can-read-wrong", std::to_string(m) + " of " + std::to_string(left), s); return; } }
        if (m > left && end != s.size()) { if (r.P(0.5)) { uint32_t v = B::BrunsliBitReaderGet(&br, m); uint32_t w = 0; for (uint32_t q = 0; q < m && q < left; ++q) w |= bit(pos + q) << q; c.Ev("peeks-past-chunk"); if (v != w) { c.Violation("peek-wrong", "", s); return; } } break; }
        if (r.P(0.25)) { uint32_t v = B::BrunsliBitReaderGet(&br, m); c.Ev("peeks"); if (v != bits(pos, m)) { c.Violation("peek-wrong", std::to_string(m), s); return; } uint32_t d = r.U(m + 1); B::BrunsliBitReaderDrop(&br, d); pos += d; c.Ev("drops"); }
        else { uint32_t v = B::BrunsliBitReaderRead(&br, m); c.Ev("reads"); if (v != bits(pos, m)) { c.Violation("read-wrong", std::to_string(m) + " at " + std::to_string(pos), s); return; } pos += m; }
        past = pos > s.size() * 8; if (r.P(0.3) || past) { bool h = B::BrunsliBitReaderIsHealthy(&br); c.Ev(h ? "healthy" : "unhealthy"); if (h == past) { c.Violation(past ? "overrun-not-noticed" : "unhealthy-within-input", std::to_string(pos), s); return; } }
      }
      if (past) break;
      c.Step("suspend"); size_t un = B::BrunsliBitReaderSuspend(&br); c.Ev("suspends"); size_t want = end - (pos + 7) / 8; if (un != want) { c.Violation("unused-bytes-wrong", std::to_string(un) + " instead of " + std::to_string(want), s); return; }
      if (!B::BrunsliBitReaderIsHealthy(&br)) { c.Violation("unhealthy-within-input", "after suspend", s); return; }
      if (end == s.size() && (un == 0 || r.P(0.3))) break; if (r.P(0.02)) break; fed = end;
    }
    if (past) { c.Ev("overruns"); return; }
    c.Step("finish"); uint32_t pad = (8 - pos % 8) % 8; bool zero = bits(pos, pad) == 0; B::BrunsliBitReaderFinish(&br); c.Ev(zero ? "zero-padding" : "nonzero-padding");
    if (B::BrunsliBitReaderIsHealthy(&br) != zero) c.Violation(zero ? "zero-padding-refused" : "nonzero-padding-accepted", std::to_string(pos), s);
    c.Sample(std::to_string(s.size()) + "B, stopped at bit " + std::to_string(pos));
  });
}

static uint64_t HuffCost(const std::vector<uint32_t>& h) {  // textbook optimum
  std::priority_queue<uint64_t, std::vector<uint64_t>, std::greater<uint64_t>> q; for (auto x : h) if (x) q.push(x); if (q.size() == 1) return q.top(); uint64_t t = 0; while (q.size() > 1) { uint64_t a = q.top(); q.pop(); a += q.top(); q.pop(); t += a; q.push(a); } return t;
}
static uint64_t LimitedCost(const std::vector<uint32_t>& h, int lim) {  // package-merge
  std::vector<uint64_t> base; for (auto x : h) if (x) base.push_back(x); std::sort(base.begin(), base.end()); size_t n = base.size(); if (n == 1) return base[0]; std::vector<uint64_t> cur = base;
  for (int l = 1; l < lim; ++l) { std::vector<uint64_t> pk; for (size_t i = 0; i + 1 < cur.size(); i += 2) pk.push_back(cur[i] + cur[i + 1]); std::vector<uint64_t> nx; std::merge(base.begin(), base.end(), pk.begin(), pk.end(), std::back_inserter(nx)); cur = nx; }
  uint64_t t = 0; for (size_t i = 0; i < 2 * n - 2; ++i) t += cur[i]; return t;
}
// Prefix codes: complete, limited, best; written and read back.
PROPERTY(P02) {
  c.Cases([&](long idx, Rng& r) {
    size_t n = r.P(0.3) ? 1 + r.U(8) : r.P(0.7) ? 1 + r.U(300) : 1 + r.U(2560); std::vector<uint32_t> h(n); int style = r.U(6);
    for (size_t i = 0; i < n; ++i) h[i] = style == 0 ? r.U(100) : style == 1 ? (r.P(0.1) ? r.U(100000) : 0) : style == 2 ? 1 : style == 3 ? 1u << std::min<size_t>(i % 24, r.U(25)) : style == 4 ? (i < 22 ? (uint32_t)(1.6 * (i ? h[i - 1] : 1) + 1) : r.U(3)) : (uint32_t)(1000 / (1 + (i * 7 % n)));
    size_t used = 0; for (auto x : h) used += x != 0; if (!used) { h[r.U(n)] = 1; used = 1; }
    int lo = 1; while ((1u << lo) < used) lo++; int lim = r.P(0.5) ? 15 : r.R(lo, 15); if (lim < lo) lim = lo;
    c.evaluations++; c.Input(std::string((char*)h.data(), n * 4)); c.Nontrivial(HashBytes(h.data(), n * 4) ^ lim); std::string det = std::to_string(used) + " of " + std::to_string(n) + " symbols, limit " + std::to_string(lim);
    std::vector<uint8_t> depth(n, 0); c.Step("create"); B::CreateHuffmanTree(h.data(), n, lim, depth.data());
    uint64_t kraft = 0, cost = 0; for (size_t i = 0; i < n; ++i) { if ((depth[i] != 0) != (h[i] != 0)) { c.Violation("depth-and-count-disagree", det); return; } if (depth[i] > lim) { c.Violation("depth-exceeds-limit", det); return; } if (depth[i]) kraft += 1u << (15 - depth[i]); cost += (uint64_t)h[i] * depth[i]; }
    if (used > 1 && kraft != 1u << 15) { c.Violation("code-not-complete", det); return; }
    uint64_t best = HuffCost(h), lbest = LimitedCost(h, lim); c.Ev(best == lbest ? "limit-not-binding" : "limit-binding"); if (best == lbest && cost != best) c.Violation("code-not-optimal", det + " " + std::to_string(cost) + " vs " + std::to_string(best)); if (best != lbest && (cost < lbest || cost > lbest + lbest / 4 + 16)) { c.Ev("limited-code-far-from-optimum"); }
    // serialised form, decoded by the rules of the format (16: repeat, 17: zeros)
    std::vector<uint8_t> tree(n + 8, 0xEE), ex(n + 8, 0xEE); size_t ts = 0; c.Step("write"); B::WriteHuffmanTree(depth.data(), n, &ts, tree.data(), ex.data()); if (ts > n) { c.Violation("tree-longer-than-depths", det); return; } for (size_t k = n; k < n + 8; ++k) if (tree[k] != 0xEE || ex[k] != 0xEE) c.Violation("tree-overruns", det);
    std::vector<uint8_t> back; uint8_t prev = 8; size_t rep = 0; uint8_t repsym = 0; 
    for (size_t k = 0; k < ts; ++k) {
      if (tree[k] > 17) { c.Violation("tree-bad-symbol", det); return; }
      if (tree[k] < 16) { if (ex[k]) c.Violation("tree-extra-bits-on-literal", det); back.push_back(tree[k]); if (tree[k]) prev = tree[k]; rep = 0; continue; }
      int eb = tree[k] - 14; uint8_t v = tree[k] == 16 ? prev : 0; if (ex[k] >> eb) { c.Violation("tree-extra-bits-too-big", det); return; } if (rep == 0 || repsym != tree[k]) { rep = 0; repsym = tree[k]; } size_t old = rep; if (rep) rep = (rep - 2) << eb; rep += ex[k] + 3; for (size_t q = old; q < rep && back.size() <= n; ++q) back.push_back(v); c.Ev("repeat-codes");
    }
    if (back.size() > n) { c.Violation("tree-describes-too-many-symbols", det); return; } back.resize(n, 0); if (back != depth) { c.Violation("tree-does-not-decode-to-depths", det); return; }
    // codes: canonical and decodable by the table
    std::vector<uint16_t> code(n, 0); c.Step("symbols"); B::ConvertBitDepthsToSymbols(depth.data(), n, code.data());
    if (n >= 1 && used > 1) {
      std::array<uint16_t, 16> cnt{}; for (auto d : depth) if (d) cnt[d]++; GuardBuf tb((size_t)4 * 8192); c.Step("table"); uint32_t sz = B::BuildHuffmanTable((B::HuffmanCode*)tb.p, 8, depth.data(), n, cnt.data());
      size_t bound = n <= 272 ? 648 : n <= 2048 ? 2424 : 2936; if (sz < 256 || sz > bound) { c.Violation("table-size", det + " " + std::to_string(sz)); return; } const B::HuffmanCode* t = (const B::HuffmanCode*)tb.p; c.Ev("tables");
      for (size_t i = 0; i < n; ++i) if (depth[i]) for (uint32_t junk : {0u, 0xFFFFu, (uint32_t)r.U(65536)}) {
        uint32_t w = (code[i] | junk << depth[i]) & 0xFFFFFF; const B::HuffmanCode* e = t + (w & 255); uint32_t used_bits = e->bits; if (e->bits > 8) { uint32_t nb = e->bits - 8; e += e->value + ((w >> 8) & ((1u << nb) - 1)); if ((size_t)(e - t) >= sz) { c.Violation("table-entry-out-of-range", det); return; } used_bits = 8 + e->bits; c.Ev("second-level"); }
        if (e->value != i || used_bits != depth[i]) { c.Violation("table-decodes-wrong-symbol", det + " symbol " + std::to_string(i) + " got " + std::to_string(e->value)); return; } }
    }
    c.Sample(det + ", cost " + std::to_string(cost) + " bits");
  });
}

// Binary arithmetic coder: what is written is read back.
struct BitSink {
  uint32_t low = 0, high = ~0u; std::vector<uint16_t> w;
  void Add(B::Prob* p, int bit) { uint32_t prob = p->get_proba(); p->Add(bit); uint32_t split = low + (((uint64_t)(high - low) * prob) >> 8); if (bit) low = split + 1; else high = split; if (((low ^ high) >> 16) == 0) { w.push_back(high >> 16); low <<= 16; high = high << 16 | 0xFFFF; } }
  void Flush() { w.push_back(high >> 16); w.push_back(high & 0xFFFF); }
};
PROPERTY(P03) {
  c.Cases([&](long idx, Rng& r) {
    size_t n = r.P(0.3) ? r.U(50) : r.P(0.8) ? r.U(4000) : r.U(60000); int nc = 1 + r.U(8); std::vector<int> t(n), ctx(n); double p = r.P(0.3) ? 0.5 : r.P(0.5) ? 0.999 : r.D(); int flips = r.U(4); for (size_t i = 0; i < n; ++i) { if (flips && r.P(0.001)) p = 1 - p; t[i] = r.P(p); ctx[i] = r.U(nc); }
    c.evaluations++; uint64_t h = n; for (size_t i = 0; i < n; ++i) h = h * 31 + t[i] * 8 + ctx[i]; c.Nontrivial(Mix(h)); std::vector<B::Prob> a(nc), b(nc); std::vector<uint8_t> seen; bool init = r.P(0.5); for (int k = 0; k < nc; ++k) { if (init) { int q = r.P(0.3) ? (r.P(0.5) ? 0 : 255) : r.U(256); a[k].Init(q); b[k].Init(q); if (a[k].get_proba() != q) c.Violation("initial-probability-lost", std::to_string(q)); } }
    BitSink out; c.Step("encode"); for (size_t i = 0; i < n; ++i) { uint8_t before = a[ctx[i]].get_proba(); out.Add(&a[ctx[i]], t[i]); uint8_t after = a[ctx[i]].get_proba(); // 0-bits make 0 likelier, 1-bits make 1 likelier
      if (t[i] == 0 ? after + 3 < before : after > before + 3) { c.Violation("probability-moves-the-wrong-way", std::to_string(before) + "->" + std::to_string(after) + " on " + std::to_string(t[i])); return; } seen.push_back(after); }
    out.Flush(); c.Ev("bits", n); c.Ev("words", out.w.size());
    GuardBuf g(std::string((char*)out.w.data(), out.w.size() * 2)); B::WordSource in(g.p, g.n, true); B::BinaryArithmeticDecoder d; c.Step("decode"); d.Init(&in);
    for (size_t i = 0; i < n; ++i) { int bit = d.ReadBit(b[ctx[i]].get_proba(), &in); b[ctx[i]].Add(bit); if (bit != t[i]) { c.Violation("bit-differs", "bit " + std::to_string(i) + " of " + std::to_string(n)); return; } if (b[ctx[i]].get_proba() != seen[i]) { c.Violation("models-diverge", ""); return; } }
    // a skewed source is compressed
    if (n > 3000 && (p > 0.99 || p < 0.01) && !flips && !init && out.w.size() * 16 > n / 4 + 40 * nc * 16) c.Violation("no-compression-of-skewed-bits", std::to_string(out.w.size() * 16) + " bits for " + std::to_string(n));
    c.Sample(std::to_string(n) + " bits in " + std::to_string(nc) + " contexts -> " + std::to_string(out.w.size()) + " words");
  });
}

// Permutation coder, quantisation matrices, AC prediction context.
PROPERTY(P04) {
  c.Cases([&](long idx, Rng& r) {
    c.evaluations++;
    if (idx % 3 == 0) {  // permutation coder
      size_t n = 1 + r.U(r.P(0.5) ? 8 : 256); std::vector<uint8_t> range(n); for (size_t i = 0; i < n; ++i) range[i] = i; for (size_t i = n; i > 1; --i) if (r.P(0.5)) std::swap(range[i - 1], range[r.U(i)]);
      std::vector<uint8_t> perm = range; for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.U(i)]); size_t m = r.P(0.7) ? n : 1 + r.U(n); c.Nontrivial(HashBytes(perm.data(), m) ^ HashBytes(range.data(), n));
      B::PermutationCoder e, d; e.Init(range); d.Init(range); std::vector<bool> gone(256, false); c.Ev("permutations");
      for (size_t i = 0; i < m; ++i) {
        int want_bits = 0; while ((1u << want_bits) < n - i) want_bits++; int code, nb; int left = (int)(n - i);
        if (i && r.P(0.2)) { int q, w; if (e.RemoveValue(perm[r.U(i)], &q, &w)) { c.Violation("value-removed-twice", ""); return; } }
        if (e.num_bits() != want_bits) { c.Violation("wrong-bit-width", std::to_string(e.num_bits()) + " for " + std::to_string(left)); return; }
        if (!e.RemoveValue(perm[i], &code, &nb)) { c.Violation("value-refused", ""); return; } if (nb != want_bits || code < 0 || code >= left) { c.Violation("code-out-of-range", std::to_string(code) + "/" + std::to_string(left)); return; }
        uint8_t v; if (d.num_bits() != nb) { c.Violation("decoder-bit-width-differs", ""); return; } if (d.Remove(left, &v) || d.Remove(left + r.U(1000), &v)) { c.Violation("invalid-code-accepted", ""); return; } if (!d.Remove(code, &v)) { c.Violation("own-code-refused", ""); return; } if (v != perm[i]) { c.Violation("permutation-differs", ""); return; } c.Ev("codes");
      }
      c.Sample("permutation of " + std::to_string(n)); return; }
    if (idx % 3 == 1) {  // quantisation matrices
      bool chroma = r.P(0.5); int src[64]; int style = r.U(4); uint8_t base[64]; uint32_t q = r.U(B::kQFactorLimit); B::FillQuantMatrix(chroma, q, base); for (int k = 0; k < 64; ++k) if (base[k] < 1) { c.Violation("zero-quantiser", std::to_string(q)); return; }
      uint8_t again[64]; B::FillQuantMatrix(chroma, q, again); if (memcmp(base, again, 64)) c.Violation("matrix-not-repeatable", ""); for (int k = 0; k < 64; ++k) src[k] = style == 0 ? base[k] : style == 1 ? std::max(1, base[k] + r.R(-3, 3)) : style == 2 ? 1 + r.U(255) : 1 + r.U(65535);
      uint8_t dst[64]; memset(dst, 0xCC, 64); uint32_t best = B::FindBestMatrix(src, chroma, dst); c.Ev("matrices"); c.Nontrivial(HashBytes(src, sizeof src)); if (best >= B::kQFactorLimit) { c.Violation("factor-out-of-range", std::to_string(best)); return; } B::FillQuantMatrix(chroma, best, again); if (memcmp(dst, again, 64)) c.Violation("best-matrix-is-not-the-filled-one", std::to_string(best)); if (style == 0 && memcmp(dst, base, 64)) c.Violation("exact-matrix-not-found", std::to_string(q));
      c.Sample("matrix, best factor " + std::to_string(best)); return; }
    int64_t lo = r.P(0.5) ? -5000 : -(int64_t)(r.Next() >> r.R(1, 60)); c.Nontrivial(lo + idx);
    for (int64_t k = 0; k < 10000; ++k) { int64_t p = lo + k; size_t a = 99, s = 99; B::ACPredictContext(p, &a, &s); uint64_t m = p < 0 ? -(uint64_t)p : p; size_t w = 0; while (w < 8 && (m >> w)) w++; c.Ev("contexts"); if (a != w || s != (p >= 0 ? 8 + w : 8 - w)) { c.Violation("context-wrong", std::to_string(p) + " -> " + std::to_string(a) + "," + std::to_string(s)); return; } }
    c.Sample("contexts from " + std::to_string(lo));
  });
}
