#include "pool.h"
std::string HostileStream(Ctx& c, Rng& r, long idx, std::string* kind);
// Writes files and the library's verdict about them into the scratch
// directory, for the monitors of the programs built on the library.
static void Put(Ctx& c, long idx, const char* ext, const std::string& s) { FILE* f = fopen((c.scratch + "/" + std::to_string(idx) + ext).c_str(), "wb"); if (!f) _exit(3); fwrite(s.data(), 1, s.size(), f); fclose(f); }
PROPERTY(DUMP) {
  c.Cases([&](long idx, Rng& r) {
    Jpg j; if (r.P(0.02)) j = HugeJpeg(&r, r.P(0.5) ? r.U(5) : 6); else if (r.P(0.1)) { GenOptions o; o.max_blocks = 8000; o.fixed_w = r.R(300, 800); o.fixed_h = r.R(300, 800); o.photo = true; o.groups_friendly = true; j.kind = "large"; j.bytes = GenJpeg(r.Next(), o, &j.info); } else j = PickJpeg(&r, false, 0.25, 300);
    std::string k, b, s, o, info; B::JPEGData d; bool rd = Read(j.bytes, &d); bool enc = rd && EncodeData(d, &b); auto p2 = [](int x) { return (x & (x - 1)) == 0; };
    bool groups = enc && p2(d.max_h_samp_factor) && p2(d.max_v_samp_factor); 
    Put(c, idx, ".jpg", j.bytes); s = PickBrn(&r, j.bytes, &k); if (s.empty()) { Bypass(j.bytes, &s); k = "bypass"; } Put(c, idx, ".in.brn", s);
    std::string hk, h = HostileStream(c, r, 1 << 28, &hk); int st = Decode(h, &o); Put(c, idx, ".hostile.brn", h); if (st == 0) Put(c, idx, ".hostile.jpg", o);
    Put(c, idx, ".info", (enc ? "1 " : "0 ") + std::string(groups ? "1 " : "0 ") + (st == 0 ? "1 " : "0 ") + k); c.evaluations++; c.Nontrivial(HashStr(j.bytes)); c.Ev(enc ? "encodable" : "not-encodable"); c.Ev("hostile-status-" + std::to_string(st)); });
}
