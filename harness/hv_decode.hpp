// Independent decoder of the htdump wire format (docs/design/htdump_format.md): the
// oracle's own reading of a byte stream. Shares no code with the library or the parser.
#pragma once
#include "hv.hpp"
#include <algorithm>
#include <functional>
#include <unordered_map>

namespace hv {
enum { DT_STRUCT = 1, DT_STRING = 2, DT_INT = 3, DT_FLOAT = 4, DT_DOUBLE = 5, DT_POINTER = 6, DT_UINT = 99 };
struct DField { std::string type, name; uint64_t size; int dtype; };
struct DKlass { uint32_t id; std::string name; unsigned announced = 0; std::vector<DField> fields; };
struct DVal { std::string name, type; int dtype; unsigned size; uint64_t u; std::string s; std::vector<DVal> sub; };
struct DEvent { uint32_t klass; std::string klass_name; uint64_t ts, id; size_t begin, end; std::vector<DVal> vals; };

struct Decoder {
    const uint8_t* p; size_t n; size_t pos = 0; bool big = false; bool ok = true; std::string err;
    unsigned dt_uint = 0; // wire value of "unsigned integer" (learnt from HT_MKCREFLECT_TYPES_EXT)
    std::map<uint32_t, DKlass> klasses;
    std::vector<DEvent> events;

    Decoder(const void* data, size_t size, unsigned uint_code) : p((const uint8_t*)data), n(size), dt_uint(uint_code) {
        auto add = [&](uint32_t id, const char* nm, std::vector<DField> f) { DKlass k; k.id = id; k.name = nm; k.fields = std::move(f); klasses[id] = k; };
        add(0, "HT_EndiannessInfoEvent", {{"HT_Event", "base", 0, DT_STRUCT}, {"uint8_t", "endianness", 1, DT_UINT}});
        add(1, "HT_Event", {});
        add(2, "HT_EventKlassInfoEvent", {{"HT_Event", "base", 0, DT_STRUCT}, {"uint32_t", "info_klass_id", 4, DT_UINT}, {"const char*", "event_klass_name", 0, DT_STRING}, {"uint8_t", "field_count", 1, DT_UINT}});
        add(3, "HT_EventKlassFieldInfoEvent", {{"HT_Event", "base", 0, DT_STRUCT}, {"uint32_t", "info_klass_id", 4, DT_UINT}, {"const char*", "field_type", 0, DT_STRING}, {"const char*", "field_name", 0, DT_STRING}, {"uint64_t", "size", 8, DT_UINT}, {"uint8_t", "data_type", 1, DT_UINT}});
    }
    bool fail(const std::string& e) { ok = false; if (err.empty()) err = e; return false; }
    bool num(unsigned size, uint64_t& v) {
        if (n - pos < size) return fail("truncated number");
        v = 0;
        for (unsigned i = 0; i < size; i++) v |= (uint64_t)p[pos + (big ? size - 1 - i : i)] << (8 * i);
        pos += size; return true;
    }
    bool str(std::string& s) {
        size_t e = pos; while (e < n && p[e]) e++;
        if (e >= n) return fail("truncated string");
        s.assign((const char*)p + pos, e - pos); pos = e + 1; return true;
    }
    const DKlass* by_name(const std::string& nm) { for (auto& k : klasses) if (k.second.name == nm) return &k.second; return nullptr; }
    bool fields(const DKlass& k, std::vector<DVal>& out, unsigned depth) {
        if (depth > 200) return fail("too deep");
        for (auto& f : k.fields) {
            DVal v; v.name = f.name; v.type = f.type; v.dtype = f.dtype; v.size = (unsigned)f.size; v.u = 0;
            if (f.dtype == DT_STRUCT) {
                if (!(f.type == "HT_Event" && f.name == "base")) {
                    const DKlass* b = by_name(f.type);
                    if (!b) return fail("unknown struct " + f.type);
                    DKlass copy = *b;
                    if (!fields(copy, v.sub, depth + 1)) return false;
                }
            } else if (f.dtype == DT_STRING) { if (!str(v.s)) return false; }
            else if (f.dtype == DT_INT || f.dtype == DT_UINT) {
                if (f.size != 1 && f.size != 2 && f.size != 4 && f.size != 8) return fail("bad size");
                if (!num((unsigned)f.size, v.u)) return false;
                if (f.dtype == DT_INT && f.size < 8 && (v.u >> (8 * f.size - 1))) v.u |= ~0ull << (8 * f.size);
            } else return fail("unsupported type");
            out.push_back(std::move(v));
        }
        return true;
    }
    static const DVal* find(const std::vector<DVal>& v, const char* nm) { for (auto& x : v) if (x.name == nm) return &x; return nullptr; }
    // Decodes one event; false at end of data or on damage (then ok/err tell).
    bool next(DEvent& e) {
        if (pos >= n) return false;
        size_t start = pos; uint64_t k;
        e = DEvent(); e.begin = start;
        if (!num(4, k)) { pos = start; return false; }
        e.klass = (uint32_t)k;
        if (!num(8, e.ts) || !num(8, e.id)) { pos = start; return false; }
        auto it = klasses.find(e.klass);
        if (it == klasses.end()) { pos = start; return fail("unknown class"); }
        DKlass kl = it->second; e.klass_name = kl.name;
        if (!fields(kl, e.vals, 0)) { pos = start; return false; }
        e.end = pos;
        if (e.klass == 0) big = find(e.vals, "endianness")->u == 1;
        if (e.klass == 2) {
            DKlass nk; nk.id = (uint32_t)find(e.vals, "info_klass_id")->u; nk.name = find(e.vals, "event_klass_name")->s; nk.announced = (unsigned)find(e.vals, "field_count")->u;
            if (!klasses.count(nk.id)) klasses[nk.id] = nk; else klasses[nk.id].announced = nk.announced;
        }
        if (e.klass == 3) {
            uint32_t id = (uint32_t)find(e.vals, "info_klass_id")->u;
            if (!klasses.count(id)) { pos = start; return fail("field of unknown class"); }
            if (id > 3) {
                DField f; f.type = find(e.vals, "field_type")->s; f.name = find(e.vals, "field_name")->s; f.size = find(e.vals, "size")->u;
                unsigned dt = (unsigned)find(e.vals, "data_type")->u; f.dtype = dt == dt_uint ? (int)DT_UINT : (int)dt;
                bool dup = false; for (auto& g : klasses[id].fields) dup |= g.name == f.name;
                if (!dup) klasses[id].fields.push_back(f);
            }
        }
        return true;
    }
    void all() { DEvent e; while (next(e)) events.push_back(e); }
};

inline std::string show_num(const DVal& v) {
    char b[48];
    if (v.dtype == DT_INT) snprintf(b, sizeof b, "i%u:%" PRId64, v.size * 8, (int64_t)v.u); else snprintf(b, sizeof b, "u%u:%" PRIu64, v.size * 8, v.u);
    return b;
}
// Canonical text of an event: flattened (inherited fields merged) or nested.
inline void canon_flat(const std::vector<DVal>& vals, std::map<std::string, std::string>& out) {
    for (auto& v : vals) {
        if (v.dtype == DT_STRUCT) canon_flat(v.sub, out);
        else if (v.dtype == DT_STRING) out.emplace(v.name, "s:" + esc(v.s));
        else out.emplace(v.name, show_num(v));
    }
}
inline std::string join(const std::map<std::string, std::string>& m) { std::string s; for (auto& x : m) s += x.first + "=" + x.second + ";"; return s; }
inline std::string base_text(const DEvent& e) { char b[160]; snprintf(b, sizeof b, "klass_id=u32:%u;timestamp=u64:%" PRIu64 ";id=u64:%" PRIu64 ";", e.klass, e.ts, e.id); return b; }
inline std::string canon_flat(const DEvent& e) {
    std::map<std::string, std::string> m; canon_flat(e.vals, m);
    char b[64];
    snprintf(b, sizeof b, "u32:%u", e.klass); m.emplace("klass_id", b);
    snprintf(b, sizeof b, "u64:%" PRIu64, e.ts); m.emplace("timestamp", b);
    snprintf(b, sizeof b, "u64:%" PRIu64, e.id); m.emplace("id", b);
    return e.klass_name + "{" + join(m) + "}";
}
inline std::string nested_vals(const DEvent& e, const std::vector<DVal>& vals) {
    std::map<std::string, std::string> m;
    for (auto& v : vals) {
        if (v.dtype == DT_STRUCT) {
            if (v.type == "HT_Event" && v.name == "base") {
                std::map<std::string, std::string> bm; char b[64];
                snprintf(b, sizeof b, "u32:%u", e.klass); bm["klass_id"] = b; snprintf(b, sizeof b, "u64:%" PRIu64, e.ts); bm["timestamp"] = b; snprintf(b, sizeof b, "u64:%" PRIu64, e.id); bm["id"] = b;
                m[v.name] = "HT_Event{" + join(bm) + "}";
            } else m[v.name] = v.type + "{" + nested_vals(e, v.sub) + "}";
        } else if (v.dtype == DT_STRING) m[v.name] = "s:" + esc(v.s);
        else m[v.name] = show_num(v);
    }
    return join(m);
}
// The built-in classes that describe a stream carry their base part implicitly.
inline std::string strip_known_base(std::string s) {
    if (s.compare(0, 23, "HT_EndiannessInfoEvent{") && s.compare(0, 23, "HT_EventKlassInfoEvent{") && s.compare(0, 28, "HT_EventKlassFieldInfoEvent{")) return s;
    size_t a = s.find("{base=HT_Event{"); if (a == std::string::npos) a = s.find(";base=HT_Event{"); if (a == std::string::npos) return s;
    size_t b = s.find("};", a); if (b == std::string::npos) return s;
    return s.erase(a + 1, b + 1 - a);
}
inline std::string canon_nested(const DEvent& e) {
    if (e.klass == 1) { std::map<std::string, std::string> bm; char b[64]; snprintf(b, sizeof b, "u32:%u", e.klass); bm["klass_id"] = b; snprintf(b, sizeof b, "u64:%" PRIu64, e.ts); bm["timestamp"] = b; snprintf(b, sizeof b, "u64:%" PRIu64, e.id); bm["id"] = b; return "HT_Event{" + join(bm) + "}"; }
    return strip_known_base(e.klass_name + "{" + nested_vals(e, e.vals) + "}");
}
} // namespace hv
