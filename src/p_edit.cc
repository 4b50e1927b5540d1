// Editing the parsed representation: what is written is what was edited.
#include "pool.h"

namespace {
size_t Len(const B::JPEGHuffmanCode& h) { int n = 0; for (int c : h.counts) n += c; return n ? n - 1 : 0; }
// Replaces a code by one that has every symbol, in another order and shape.
void Flat(B::JPEGHuffmanCode* h, Rng* r) {
  bool ac = h->slot_id & 16; std::vector<int> s;
  if (ac) { s = {0x00, 0xF0}; for (int k = 1; k < 15; ++k) s.push_back(k << 4); int top = r->P(0.5) ? 10 : 11; for (int k = 0; k < 16; ++k) for (int n = 1; n <= top; ++n) s.push_back(k << 4 | n); }
  else for (int n = 0; n < 12; ++n) s.push_back(n);
  for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r->U((uint32_t)i)]);
  h->counts.fill(0); h->values.fill(0);
  // One more code than symbols; as many as fit are given each of a few lengths, the rest the last one.
  int left = (int)s.size() + 1, space = 65536, min_last = 1; while ((1 << min_last) < left) ++min_last;
  int last = r->P(0.3) ? 16 : r->R(min_last, 16);
  for (int l = 1 + r->U(4); l < last; l += 1 + r->U(4)) {
    int unit = 1 << (16 - l), lu = 1 << (16 - last), best = 0;
    while (best + 2 < left && space - (best + 1) * unit >= (left - best - 1) * lu) ++best;
    int n = r->P(0.3) ? best : best ? r->U(best + 1) : 0; h->counts[l] = n; left -= n; space -= n * unit;
  }
  h->counts[last] = left;
  for (size_t i = 0; i < s.size(); ++i) h->values[i] = s[i];
  h->values[s.size()] = 256;
}
bool Covered(const B::JPEGData& d, bool prog, int comp, int k) {
  bool first = false; int low = 99;
  for (auto& s : d.scan_info) for (size_t i = 0; i < s.num_components; ++i) if (s.components[i].comp_idx == comp) {
    if (!prog) return true;
    if (k < s.Ss || k > s.Se) continue;
    if (s.Ah == 0) first = true; low = std::min(low, s.Al);
  }
  return first && low == 0;
}
// Whether progressive coding certainly needs no symbol that Flat leaves out.
bool Moderate(const B::JPEGData& d) {
  for (auto& c : d.components) {
    int lo = 0, hi = 0;
    for (size_t i = 0; i < c.coeffs.size(); ++i) { int v = c.coeffs[i]; if (i & 63) { if (std::abs(v) > 1023) return false; } else { lo = std::min(lo, v); hi = std::max(hi, v); } }
    if (hi - lo > 2047) return false;
  }
  return true;
}
// Whether every symbol that sequential coding needs has a code (1 yes, 0 no).
int Codable(const B::JPEGData& d) {
  std::vector<std::array<bool, 256>> dc(4), ac(4); for (auto& t : dc) t.fill(false); for (auto& t : ac) t.fill(false);
  size_t dht = 0, scan = 0; bool dri = false;
  for (uint8_t m : d.marker_order) {
    if (m == 0xDD) dri = true;
    if (m == 0xC4) while (dht < d.huffman_code.size()) { auto& h = d.huffman_code[dht++]; auto& t = (h.slot_id & 16 ? ac : dc)[h.slot_id & 3]; t.fill(false); for (size_t i = 0; i < Len(h); ++i) t[h.values[i]] = true; if (h.is_last) break; }
    if (m != 0xDA) continue;
    auto& s = d.scan_info[scan++]; bool inter = s.num_components > 1; auto& base = d.components[s.components[0].comp_idx];
    int hg = inter ? 1 : base.h_samp_factor, vg = inter ? 1 : base.v_samp_factor, mh = 8 * d.max_h_samp_factor, mv = 8 * d.max_v_samp_factor;
    int cols = (d.width * hg + mh - 1) / mh, rows = (d.height * vg + mv - 1) / mv, ri = dri ? d.restart_interval : 0, n = 0; std::vector<int> last(4, 0);
    for (int my = 0; my < rows; ++my) for (int mx = 0; mx < cols; ++mx, ++n) {
      if (ri && n % ri == 0) last.assign(4, 0);
      for (size_t i = 0; i < s.num_components; ++i) {
        auto& si = s.components[i]; auto& c = d.components[si.comp_idx]; int by = inter ? c.v_samp_factor : 1, bx = inter ? c.h_samp_factor : 1;
        for (int y = 0; y < by; ++y) for (int x = 0; x < bx; ++x) {
          const int16_t* q = &c.coeffs[((size_t)(my * by + y) * c.width_in_blocks + mx * bx + x) * 64];
          int v = std::abs(q[0] - last[i]), z = 0, bits = 0; last[i] = q[0]; while (v >> bits) ++bits;
          if (bits > 11 || !dc[si.dc_tbl_idx & 3][bits]) return 0;
          for (int k = 1; k < 64; ++k) {
            v = std::abs((int)q[B::kJPEGNaturalOrder[k]]); if (!v) { ++z; continue; }
            for (; z > 15; z -= 16) if (!ac[si.ac_tbl_idx & 3][0xF0]) return 0;
            for (bits = 0; v >> bits; ++bits) {} if (bits > 15 || !ac[si.ac_tbl_idx & 3][z << 4 | bits]) return 0;
            z = 0;
          }
          if (z && !ac[si.ac_tbl_idx & 3][0]) return 0;
        }
      }
    }
  }
  return 1;
}
void ForgetScanDetails(B::JPEGData* d) { for (auto& s : d->scan_info) { s.reset_points.clear(); s.extra_zero_runs.clear(); } }
}  // namespace

PROPERTY(L08) {
  c.Cases([&](long idx, Rng& r) {
    Jpg g = PickJpeg(&r, c.thorough(), 0.05, 160); B::JPEGData o; if (!Read(g.bytes, &o)) { c.Ev("unreadable"); return; }
    bool prog = false, sof = false; for (uint8_t m : o.marker_order) { if (m == 0xC2) prog = sof = true; else if (m == 0xC0 || m == 0xC1) sof = true; } if (!sof) { c.Ev("other-frame"); return; }
    std::string w; c.Input(g.bytes); if (!Write(o, &w) || w != g.bytes) { c.Ev("not-reproduced"); return; }
    B::JPEGData d = o; std::string expect, what; bool exact = false, coeffs = false, flat = false; c.Step("edit");
    auto segment = [&](const std::vector<uint8_t>& s, size_t* at) { std::string t = "\xFF" + std::string((const char*)s.data(), s.size()); size_t p = g.bytes.find(t); if (p == std::string::npos || g.bytes.find(t, p + 1) != std::string::npos) return false; *at = p; return true; };
    auto marker = [&](bool com, size_t k) { for (size_t i = 0; i < d.marker_order.size(); ++i) { uint8_t m = d.marker_order[i]; if (com ? m == 0xFE : (m & 0xF0) == 0xE0) { if (!k--) return i; } } return d.marker_order.size(); };
    auto payload = [&](uint8_t m) { size_t n = r.P(0.8) ? r.U(60) : r.P(0.5) ? r.U(3000) : 65533; std::vector<uint8_t> v{m, (uint8_t)((n + 2) >> 8), (uint8_t)(n + 2)}; for (size_t i = 0; i < n; ++i) v.push_back(r.P(0.2) ? 255 : r.U(256)); return v; };
    int kind = r.U(9);
    if (kind <= 1) {  // remove or replace a segment
      bool com = o.app_data.empty() || (r.P(0.5) && !o.com_data.empty()); auto& list = com ? d.com_data : d.app_data; if (list.empty()) { c.Ev("nothing-to-remove"); return; }
      size_t k = r.U((uint32_t)list.size()), at = 0, m = marker(com, k); std::vector<uint8_t> old = list[k]; exact = segment(old, &at); if (m >= d.marker_order.size()) return;
      if (kind == 0) { what = "remove"; list.erase(list.begin() + k); d.marker_order.erase(d.marker_order.begin() + m); if (exact) { expect = g.bytes; expect.erase(at, old.size() + 1); } }
      else { what = "replace"; list[k] = payload(old[0]); if (exact) { expect = g.bytes; expect.replace(at + 1, old.size(), std::string(list[k].begin(), list[k].end())); } }
    } else if (kind == 2) {  // add a segment at the front
      what = "add"; bool com = r.P(0.5); auto s = payload(com ? 0xFE : 0xE0 + r.U(16)); auto& list = com ? d.com_data : d.app_data; list.insert(list.begin(), s); d.marker_order.insert(d.marker_order.begin(), s[0]);
      exact = true; expect = g.bytes; expect.insert(2, "\xFF" + std::string(s.begin(), s.end()));
      if (!o.marker_order.empty() && o.marker_order[0] == 0xFF) exact = false;
    } else if (kind == 3) {
      what = "tail"; d.tail_data.clear(); for (int n = r.P(0.3) ? 0 : r.P(0.8) ? r.U(40) : r.U(70000); n--;) d.tail_data.push_back(r.U(256));
      exact = true; expect = g.bytes.substr(0, g.bytes.size() - o.tail_data.size()) + std::string(d.tail_data.begin(), d.tail_data.end());
    } else if (kind == 4) {
      what = "quant"; if (d.quant.empty()) return; if (r.P(0.3)) { what = "quant16"; for (auto& t : d.quant) t.precision = 1; } auto& t = d.quant[r.U((uint32_t)d.quant.size())]; for (int n = 1 + r.U(64); n--;) t.values[r.U(64)] = t.precision ? 1 + r.U(65535) : 1 + r.U(255);
    } else if (kind == 5) {
      what = "restart"; d.has_zero_padding_bit = false; d.padding_bits.clear(); ForgetScanDetails(&d);
      bool has = false; for (uint8_t m : d.marker_order) has |= m == 0xDD; d.restart_interval = r.P(0.1) ? 0 : 1 + r.U(r.P(0.8) ? 20 : 65535);
      if (!has) { size_t i = 0; while (i < d.marker_order.size() && d.marker_order[i] != 0xDA) ++i; if (i == d.marker_order.size()) { c.Ev("no-scan"); return; } d.marker_order.insert(d.marker_order.begin() + i, 0xDD); }
      if (r.P(0.5)) { flat = true; for (auto& h : d.huffman_code) Flat(&h, &r); } coeffs = true;
    } else {  // coefficients, with the given tables or complete ones
      what = "coefficients"; ForgetScanDetails(&d); d.has_zero_padding_bit = false; d.padding_bits.clear(); coeffs = true;
      if (r.P(0.5)) { flat = true; what = "coefficients+tables"; for (auto& h : d.huffman_code) Flat(&h, &r); }
      int lim = r.P(0.3) ? 1 : r.P(0.3) ? 15 : r.P(0.4) ? 255 : r.P(0.5) ? 1023 : 2047;
      for (int n = r.P(0.5) ? 1 + r.U(3) : r.U(300); n--;) {
        int ci = r.U((uint32_t)d.components.size()); auto& k = d.components[ci]; if (k.coeffs.empty()) continue;
        uint32_t bw = (d.width * k.h_samp_factor + 8 * d.max_h_samp_factor - 1) / (8 * d.max_h_samp_factor), bh = (d.height * k.v_samp_factor + 8 * d.max_v_samp_factor - 1) / (8 * d.max_v_samp_factor);
        size_t b = (size_t)r.U(bh) * k.width_in_blocks + r.U(bw); int z = r.P(0.2) ? 0 : r.U(64); if (!Covered(d, prog, ci, z)) continue;
        if (r.P(0.05)) { for (int q = 0; q < 64; ++q) if (Covered(d, prog, ci, q)) k.coeffs[b * 64 + B::kJPEGNaturalOrder[q]] = r.P(0.5) ? 0 : r.R(-lim, lim); }
        else k.coeffs[b * 64 + B::kJPEGNaturalOrder[z]] = r.P(0.2) ? 0 : r.R(-lim, lim);
      }
    }
    c.evaluations++; c.Ev("edit:" + what + (prog ? ":progressive" : ":sequential"));
    int codable = !coeffs ? 1 : prog ? (flat && Moderate(d) ? -2 : -1) : Codable(d);
    if (coeffs) c.Ev(codable == -2 ? "codable-progressive" : codable == 1 ? "codable" : codable == 0 ? "not-codable" : "codable-unknown");
    c.Step("write"); std::string z; bool ok = Write(d, &z);
    if (codable == 0 && ok) { c.Violation("written-without-code", what, g.bytes); return; }
    if (codable == 1 && !ok) { c.Violation("codable-not-written:" + what, "", g.bytes); return; }
    if (codable == -2 && !ok) { c.Violation("codable-not-written:" + what, "progressive", g.bytes); return; }
    if (!ok) { c.Ev("refused"); return; }
    c.Nontrivial(HashStr(z)); c.Ev("written");
    if (exact) { c.Ev("exact"); if (z != expect) { size_t i = 0; while (i < z.size() && i < expect.size() && z[i] == expect[i]) ++i; c.Violation("edited-file-differs:" + what, "at " + std::to_string(i) + " of " + std::to_string(expect.size()) + " / " + std::to_string(z.size()), g.bytes); } }
    // read back
    c.Step("reread"); c.Input(z); B::JPEGData e; if (!Read(z, &e)) { c.Violation("written-unreadable:" + what, std::to_string((int)e.error), z); return; }
    if (kind == 0 && !o.inter_marker_data.empty()) { c.Ev("removed-between-gaps"); return; }  // two gaps may have become one
    B::JPEGData x = d, y = e; if (prog && coeffs) { ForgetScanDetails(&x); ForgetScanDetails(&y); }
    std::string f = DiffData(x, y); if (!f.empty()) { c.Violation("reread-differs:" + what + ":" + f.substr(0, f.find('[')), f, z); return; }
    // and through the format
    c.Step("encode"); d.version = r.P(0.2) ? 0 : 2; e.version = d.version; std::string b1, b2; bool e1 = EncodeData(d, &b1), e2 = EncodeData(e, &b2);
    if (e1 != e2) { c.Violation("encoder-verdict-differs", what, z); return; }
    if (!e1) { c.Ev("encoder-refused"); return; }
    c.Step("decode"); c.Input(b1); std::string q; int st = Decode(b1, &q); if (st) c.Violation("edited-decode-failed:" + what, std::to_string(st), b1); else if (q != z) c.Violation("edited-restored-differs:" + what, "", b1);
    c.Ev("through-format"); c.Sample(what + ", " + std::to_string(g.bytes.size()) + " -> " + std::to_string(z.size()) + " bytes");
  });
}
