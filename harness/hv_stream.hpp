// Independent writer of htdump streams (either byte order), used to build inputs for the parser side.
#pragma once
#include "hv_decode.hpp"
namespace hv {
struct SField { int dtype; unsigned size; std::string type, name; }; // dtype: DT_*
struct SKlass { uint32_t id; std::string name; int base; std::vector<SField> fields; }; // base: index into classes, -1 = HT_Event
struct Writer {
    std::vector<uint8_t> out; bool big = false; uint64_t ids = 0;
    void num(uint64_t v, unsigned size) { for (unsigned i = 0; i < size; i++) out.push_back((uint8_t)(v >> (8 * (big ? size - 1 - i : i)))); }
    void str(const std::string& s) { out.insert(out.end(), s.begin(), s.end()); out.push_back(0); }
    void head(uint32_t k, uint64_t ts, uint64_t id) { num(k, 4); num(ts, 8); num(id, 8); }
    void endianness(unsigned e) { head(0, 0, 0); num(e, 1); }
    void klass(uint32_t id, const std::string& name, unsigned count) { head(2, 1, ids++); num(id, 4); str(name); num(count, 1); }
    void field(uint32_t id, const std::string& type, const std::string& name, uint64_t size, unsigned dt) { head(3, 1, ids++); num(id, 4); str(type); str(name); num(size, 8); num(dt, 1); }
    void field(uint32_t id, const SField& f, unsigned uint_code) { field(id, f.type, f.name, f.size, f.dtype == DT_UINT ? uint_code : (unsigned)f.dtype); }
};
inline std::vector<SKlass> random_klasses(Rng& r, size_t n, uint32_t first_id) {
    std::vector<SKlass> ks; static const char* un[] = {"uint8_t", "uint16_t", "", "uint32_t", "", "", "", "uint64_t"}; static const char* sn[] = {"int8_t", "int16_t", "", "int32_t", "", "", "", "int64_t"};
    uint32_t id = first_id;
    for (size_t i = 0; i < n; i++) {
        SKlass k; id += r.chance(80) ? 1 : r.range(1, 100000); k.id = id; k.name = "K" + std::to_string(i) + (r.chance(10) ? std::string(r.below(300), 'n') : "");
        k.base = (i && r.chance(50)) ? (int)r.below(i) : -1;
        size_t nf = r.below(7);
        for (size_t j = 0; j < nf; j++) {
            SField f; f.name = "f" + std::to_string(i) + "_" + std::to_string(j);
            if (r.chance(30)) { f.dtype = DT_STRING; f.size = 8; f.type = "const char*"; }
            else { f.size = 1u << r.below(4); f.dtype = r.chance(50) ? DT_INT : DT_UINT; f.type = f.dtype == DT_INT ? sn[f.size - 1] : un[f.size - 1]; }
            k.fields.push_back(f);
        }
        ks.push_back(k);
    }
    return ks;
}
inline void write_klass(Writer& w, const std::vector<SKlass>& ks, const SKlass& k, unsigned uint_code) {
    w.klass(k.id, k.name, (unsigned)k.fields.size() + 1);
    w.field(k.id, k.base < 0 ? "HT_Event" : ks[k.base].name, "base", 24, DT_STRUCT);
    for (auto& f : k.fields) w.field(k.id, f, uint_code);
}
inline void write_body(Writer& w, const std::vector<SKlass>& ks, const SKlass& k, Rng& r, std::vector<DVal>& vals, size_t maxstr = 60) {
    DVal b; b.name = "base"; b.dtype = DT_STRUCT; b.size = 0; b.u = 0; b.type = k.base < 0 ? "HT_Event" : ks[k.base].name;
    if (k.base >= 0) write_body(w, ks, ks[k.base], r, b.sub, maxstr);
    vals.push_back(b);
    for (auto& f : k.fields) {
        DVal v; v.name = f.name; v.type = f.type; v.dtype = f.dtype; v.size = f.size; v.u = 0;
        if (f.dtype == DT_STRING) { size_t l = r.below(r.chance(10) ? maxstr * 4 : maxstr); for (size_t i = 0; i < l; i++) v.s += (char)r.range(1, 255); w.str(v.s); }
        else {
            v.u = r.interesting(); if (f.size < 8) v.u &= (1ull << (8 * f.size)) - 1;
            w.num(v.u, f.size);
            if (f.dtype == DT_INT && f.size < 8 && (v.u >> (8 * f.size - 1))) v.u |= ~0ull << (8 * f.size);
        }
        vals.push_back(v);
    }
}
inline DEvent write_event(Writer& w, const std::vector<SKlass>& ks, const SKlass& k, Rng& r, size_t maxstr = 60) {
    DEvent e; e.klass = k.id; e.klass_name = k.name; e.ts = r.interesting(); e.id = r.interesting(); e.begin = w.out.size();
    w.head(k.id, e.ts, e.id); write_body(w, ks, k, r, e.vals, maxstr); e.end = w.out.size(); return e;
}
} // namespace hv
