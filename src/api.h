// Wrappers around the public API of the code under test.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include "h.h"

namespace B = brunsli;
inline const uint8_t* U8(const std::string& s) { return (const uint8_t*)s.data(); }
inline size_t AppendSink(void* d, const uint8_t* b, size_t n) { ((std::string*)d)->append((const char*)b, n); return n; }

inline bool Read(const std::string& j, B::JPEGData* d, B::JpegReadMode m = B::JPEG_READ_ALL) { return B::ReadJpeg(U8(j), j.size(), m, d); }
inline bool Write(const B::JPEGData& d, std::string* out) { out->clear(); B::JPEGOutput o(AppendSink, out); return B::WriteJpeg(d, o); }
inline bool EncodeData(const B::JPEGData& d, std::string* out) {
  size_t len = B::GetMaximumBrunsliEncodedSize(d);
  out->assign(len, 0);
  if (!B::BrunsliEncodeJpeg(d, (uint8_t*)&(*out)[0], &len)) { out->clear(); return false; }
  out->resize(len); return true;
}
inline bool Encode(const std::string& j, std::string* out, int version = 2) {
  B::JPEGData d; if (!Read(j, &d)) return false; d.version = version; return EncodeData(d, out);
}
inline bool EncodeC(const std::string& j, std::string* out) {
  out->clear();
  return EncodeBrunsli(j.size(), U8(j), out, AppendSink) == 1;
}
// 0 ok; 1..99 status; 100 not serialisable
inline int Decode(const std::string& b, std::string* out) {
  out->clear(); B::JPEGData d; int s = (int)B::BrunsliDecodeJpeg(U8(b), b.size(), &d);
  if (s) return s;
  return Write(d, out) ? 0 : 100;
}
inline bool DecodeC(const std::string& b, std::string* out) { out->clear(); return DecodeBrunsli(b.size(), U8(b), out, AppendSink) == 1; }
inline bool Bypass(const std::string& j, std::string* out) {
  size_t len = B::GetBrunsliBypassSize(j.size()); out->assign(len, 0);
  if (!B::BrunsliEncodeJpegBypass(U8(j), j.size(), (uint8_t*)&(*out)[0], &len)) { out->clear(); return false; }
  out->resize(len); return true;
}

// ---- streaming decoder driven by a schedule, with the monitors of S01-S03.
struct StreamResult { int status = -1; std::string out; uint64_t calls = 0; bool stuck = false; size_t consumed = 0; int early_done = 0; };
struct Schedule {
  // next input chunk size / output window size
  std::function<size_t()> in, out;
  bool scribble = true;     // overwrite + release consumed input
  bool drain_first = true;  // no new input while output is pending
  double empty_call = 0;    // probability of a call with an empty input window
  std::string label;
};
// on_contract(key, detail) is called for every violation of the call contract.
inline StreamResult StreamDecode(const std::string& b, const Schedule& sc, Rng* r,
                                 const std::function<void(const std::string&, const std::string&)>& on_contract) {
  StreamResult res; B::BrunsliDecoder dec;
  size_t pos = 0; int idle = 0;
  std::string pend;  // unconsumed input (only if the decoder leaves any)
  bool more_out = false;
  while (true) {
    size_t n = 0;
    bool feed = pend.empty() && pos < b.size() && !(sc.drain_first && more_out) && !(sc.empty_call > 0 && r->P(sc.empty_call));
    if (feed) { n = std::min(std::max<size_t>(1, sc.in()), b.size() - pos); pend = b.substr(pos, n); pos += n; }
    size_t avail_in = pend.size(); uint8_t* ib = (uint8_t*)malloc(avail_in ? avail_in : 1); memcpy(ib, pend.data(), avail_in);
    // a window of no bytes may be a null pointer
    const uint8_t* ib0 = avail_in == 0 && r->P(0.5) ? nullptr : ib; const uint8_t* next_in = ib0;
    size_t win = sc.out(); const size_t kC = 16;
    uint8_t* ob = (uint8_t*)malloc(win + 2 * kC); memset(ob, 0xC3, win + 2 * kC);
    uint8_t* ob0 = win == 0 && r->P(0.5) ? nullptr : ob + kC; uint8_t* next_out = ob0; size_t avail_out = win;
    auto st = dec.Decode(&avail_in, &next_in, &avail_out, &next_out);
    res.calls++;
    size_t used = 0, made = 0;
    if (avail_in > pend.size() || (uintptr_t)next_in - (uintptr_t)ib0 != pend.size() - avail_in)
      on_contract("input-accounting", "available_in/next_in disagree");
    else used = pend.size() - avail_in;
    if (avail_out > win || (uintptr_t)next_out - (uintptr_t)ob0 != win - avail_out)
      on_contract("output-accounting", "available_out/next_out disagree");
    else made = win - avail_out;
    for (size_t k = 0; k < kC; ++k) if (ob[k] != 0xC3 || ob[kC + win + k] != 0xC3) { on_contract("output-overrun", "byte outside the window changed"); break; }
    for (size_t k = made; k < win; ++k) if (ob[kC + k] != 0xC3) { on_contract("output-unreported", "byte past the reported output changed"); break; }
    if (memcmp(ib, pend.data(), pend.size()) != 0) on_contract("input-modified", "input bytes changed");
    res.out.append((char*)ob + kC, made);
    res.consumed += used; bool had = !pend.empty();
    pend.erase(0, used);
    if (sc.scribble) { memset(ib, 0xDB, used ? used : 1); }
    free(ib); free(ob);
    if (st == B::BrunsliDecoder::ERROR) { res.status = 2; return res; }
    if (st == B::BrunsliDecoder::DONE) {
      if (!pend.empty()) on_contract("done-while-input-left", "DONE with available_in > 0");
      // a complete stream followed by more input: the input must be refused
      if (pend.empty() && pos < b.size() && res.early_done < 3) { if (had) res.early_done++; more_out = false; continue; }
      res.status = 3; return res;
    }
    if (st == B::BrunsliDecoder::NEEDS_MORE_INPUT && !pend.empty()) on_contract("more-input-while-input-left", "NEEDS_MORE_INPUT with available_in > 0");
    if (st == B::BrunsliDecoder::NEEDS_MORE_OUTPUT && avail_out != 0) on_contract("more-output-while-room-left", "NEEDS_MORE_OUTPUT with available_out > 0");
    if (st != B::BrunsliDecoder::NEEDS_MORE_INPUT && st != B::BrunsliDecoder::NEEDS_MORE_OUTPUT) { on_contract("unknown-status", std::to_string((int)st)); res.status = 2; return res; }
    more_out = st == B::BrunsliDecoder::NEEDS_MORE_OUTPUT;
    if (st == B::BrunsliDecoder::NEEDS_MORE_INPUT && pend.empty() && pos >= b.size() && used == 0 && made == 0 && win > 0) { res.status = 0; return res; }
    if (used == 0 && made == 0 && (had || win > 0)) { if (++idle > 64) { if (pos >= b.size() || !pend.empty()) { res.stuck = true; res.status = more_out ? 1 : 0; return res; } } }
    else idle = 0;
  }
}
inline Schedule RandomSchedule(Rng* r, size_t n, size_t outn) {
  Schedule s; int ki = r->U(8), ko = r->U(7);
  size_t big = n + 1;
  switch (ki) {
    case 0: s.in = [] { return (size_t)1; }; s.label = "in1"; break;
    case 1: s.in = [big] { return big; }; s.label = "inall"; break;
    case 2: s.in = [r] { return (size_t)r->R(1, 7); }; s.label = "in1-7"; break;
    case 3: s.in = [r] { return (size_t)r->R(1, 1300); }; s.label = "in1-1300"; break;
    case 4: { size_t k = r->R(2, 700); s.in = [k] { return k; }; s.label = "infix"; break; }
    case 5: { auto first = std::make_shared<bool>(true); size_t k = r->U((uint32_t)n + 1); s.in = [=] { bool f = *first; *first = false; return f ? std::max<size_t>(1, k) : big; }; s.label = "in2"; break; }
    case 6: s.in = [r] { return (size_t)(r->P(0.5) ? r->R(590, 610) : r->R(1, 3)); }; s.label = "in600"; break;
    default: s.in = [r, n] { return (size_t)(r->P(0.8) ? r->R(1, 40) : 1 + r->U((uint32_t)n / 2 + 1)); }; s.label = "inmix"; break;
  }
  // the windows are initialised and inspected in every call: bound the product
  size_t step = ki == 0 ? 1 : ki == 2 ? 4 : ki == 6 || ki == 7 ? 20 : 300, cap = std::max<size_t>(200, 40000000 / (n / step + 1));
  size_t bo = std::min(outn + 4096, cap), w64 = std::min<size_t>(65536, cap);
  switch (ko) {
    case 0: s.out = [] { return (size_t)1; }; s.label += "/out1"; break;
    case 1: s.out = [bo] { return bo; }; s.label += "/outall"; break;
    case 2: s.out = [r] { return (size_t)r->R(0, 9); }; s.label += "/out0-9"; break;
    case 3: s.out = [r] { return (size_t)r->R(1, 5000); }; s.label += "/out1-5000"; break;
    case 4: { size_t k = r->R(2, 300); s.out = [k] { return k; }; s.label += "/outfix"; break; }
    case 5: s.out = [r, bo] { return r->P(0.3) ? (size_t)0 : r->P(0.5) ? (size_t)r->R(1, 64) : bo; }; s.label += "/outmix"; break;
    default: s.out = [w64] { return w64; }; s.label += "/out64k"; break;
  }
  s.drain_first = r->P(0.7); s.scribble = false; s.empty_call = r->P(0.3) ? 0.2 : 0;
  if (s.label.find("out1") != std::string::npos || s.label.find("0-9") != std::string::npos) { if (outn > 60000) s.out = [r] { return (size_t)r->R(1, 700); }; }
  return s;
}

// ---- structural comparison of parsed representations
inline std::string DiffData(const B::JPEGData& a, const B::JPEGData& b, bool coeffs = true) {
#define CMP(f) if (!(a.f == b.f)) return #f
  CMP(width); CMP(height); CMP(max_h_samp_factor); CMP(max_v_samp_factor); CMP(MCU_rows); CMP(MCU_cols);
  CMP(restart_interval); CMP(app_data); CMP(com_data); CMP(marker_order); CMP(inter_marker_data); CMP(tail_data);
  CMP(has_zero_padding_bit);
  if (a.has_zero_padding_bit) CMP(padding_bits);
  CMP(quant.size());
  for (size_t i = 0; i < a.quant.size(); ++i) { CMP(quant[i].values); CMP(quant[i].precision); CMP(quant[i].index); CMP(quant[i].is_last); }
  CMP(huffman_code.size());
  for (size_t i = 0; i < a.huffman_code.size(); ++i) { CMP(huffman_code[i].counts); CMP(huffman_code[i].slot_id); CMP(huffman_code[i].is_last);
    int n = 0; for (int c : a.huffman_code[i].counts) n += c; for (int k = 0; k + 1 < n; ++k) CMP(huffman_code[i].values[k]); }
  CMP(components.size());
  for (size_t i = 0; i < a.components.size(); ++i) {
    CMP(components[i].id); CMP(components[i].h_samp_factor); CMP(components[i].v_samp_factor); CMP(components[i].quant_idx);
    CMP(components[i].width_in_blocks); CMP(components[i].height_in_blocks); CMP(components[i].num_blocks);
    if (coeffs) CMP(components[i].coeffs);
  }
  CMP(scan_info.size());
  for (size_t i = 0; i < a.scan_info.size(); ++i) {
    CMP(scan_info[i].Ss); CMP(scan_info[i].Se); CMP(scan_info[i].Ah); CMP(scan_info[i].Al); CMP(scan_info[i].num_components);
    for (size_t k = 0; k < a.scan_info[i].num_components; ++k) { CMP(scan_info[i].components[k].comp_idx); CMP(scan_info[i].components[k].dc_tbl_idx); CMP(scan_info[i].components[k].ac_tbl_idx); }
    CMP(scan_info[i].reset_points); CMP(scan_info[i].extra_zero_runs.size());
    for (size_t k = 0; k < a.scan_info[i].extra_zero_runs.size(); ++k) { CMP(scan_info[i].extra_zero_runs[k].block_idx); CMP(scan_info[i].extra_zero_runs[k].num_extra_zero_runs); }
  }
#undef CMP
  return "";
}
