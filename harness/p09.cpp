// P09: the parser against truncated, corrupted and hostile streams.
#include "hv_parse.hpp"
#include "hv_stream.hpp"
using namespace hv;
static const unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;

static std::vector<uint8_t> valid_stream(Rng& r) {
    Writer w; 
    if (r.chance(90)) { unsigned e = r.chance(25); w.endianness(e); w.big = e; }
    auto ks = random_klasses(r, r.range(1, 8), 3);
    size_t written = 0;
    while (written < ks.size() || r.chance(85)) {
        if (written < ks.size() && (written == 0 || r.chance(40))) { write_klass(w, ks, ks[written], UC); written++; }
        else if (r.chance(5)) w.head(1, r.next(), r.next());
        else { size_t k = r.below(written); write_event(w, ks, ks[k], r); }
        if (w.out.size() > 6000) break;
    }
    return w.out;
}
// Descriptions no library would write.
static std::vector<uint8_t> hostile_stream(Rng& r) {
    Writer w; if (r.chance(70)) w.endianness(r.chance(30) ? (unsigned)r.below(256) : 0);
    switch (r.below(12)) {
    case 0: { unsigned n = r.range(1, 4); w.klass(10, "A", n); w.field(10, "A", "self", 8, DT_STRUCT); if (r.chance(50)) w.field(10, "uint8_t", "x", 1, UC); for (int i = 0; i < 3; i++) { w.head(10, 1, 1); w.num(r.next(), 8); } break; }
    case 1: { w.klass(10, "A", 1); w.klass(11, "B", 1); if (r.chance(50)) w.field(10, "uint32_t", "n", 4, UC); w.field(10, "B", "b", 8, DT_STRUCT); w.field(11, "A", "a", 8, DT_STRUCT); w.head(r.chance(50) ? 10 : 11, 1, 1); for (int i = 0; i < 2000; i++) w.num(0, 8); break; }
    case 2: { unsigned n = r.range(5, 60), p = r.range(1, 3); for (unsigned i = 0; i < n; i++) { w.klass(10 + i, "K" + std::to_string(i), p); if (i) for (unsigned j = 0; j < p; j++) w.field(10 + i, "K" + std::to_string(i - 1), "s" + std::to_string(j), 8, DT_STRUCT); } w.head(10 + n - 1, 1, 1); for (unsigned i = 0; i < r.below(200); i++) w.num(0, 8); break; }
    case 3: { w.field((uint32_t)r.below(40), "int", "f", 1u << r.below(5), (unsigned)r.below(120)); break; }
    case 4: { w.klass(10, "A", 3); w.field(10, "t", "f", r.below(20), (unsigned)r.below(8)); w.field(10, "t", "g", r.chance(50) ? r.interesting() : 4, UC); w.head(10, 1, 2); w.num(r.next(), 8); w.num(0, 8); break; }
    case 5: { w.klass(10, "A", 1); w.field(10, "Nowhere", "base", 8, DT_STRUCT); w.head(10, 1, 2); w.num(0, 8); break; }
    case 6: { uint32_t id = (uint32_t)r.below(5); w.klass(id, "Redefined", 2); w.field(id, r.chance(50) ? "uint64_t" : "const char*", r.chance(50) ? "klass_id" : "timestamp", 8, r.chance(50) ? UC : DT_STRING); w.head(id, 1, 1); w.str("text"); w.num(r.next(), 8); w.num(0, 8); break; }
    case 7: { w.klass(10, "A", 4); w.field(10, "const char*", "timestamp", 8, DT_STRING); w.field(10, "const char*", "id", 8, DT_STRING); w.field(10, "HT_Event", "base", 8, DT_STRUCT); w.field(10, "HT_Event", "klass_id", 8, DT_STRUCT); for (int i = 0; i < 3; i++) { w.head(10, 1, 2); w.str("aa"); w.str("bb"); w.num(1, 4); w.num(2, 8); w.num(3, 8); } break; }
    case 8: { w.klass(10, "A", 2); w.field(10, "HT_Event", "base", 8, DT_STRUCT); w.field(10, "const char*", "s", 8, DT_STRING); w.klass(11, "B", 2); w.field(11, "A", "base", 8, DT_STRUCT); w.field(11, "A", "again", 8, DT_STRUCT); w.field(11, "const char*", "s", 8, DT_STRING); for (int i = 0; i < 4; i++) { w.head(11, 1, 2); w.str("one"); w.str("two"); w.str("three"); } break; }
    case 9: { w.klass(10, "A", 1); w.klass(11, "A", 1); w.field(11, "A", "x", 8, DT_STRUCT); w.field(10, "A", "x", 8, DT_STRUCT); w.head(r.chance(50) ? 10 : 11, 1, 1); w.num(0, 8); break; }
    case 10: { w.klass(10, "A", 1); w.field(10, "const char*", "s", 8, DT_STRING); w.head(10, 1, 1); w.out.insert(w.out.end(), r.below(200000), 'z'); if (r.chance(50)) w.num(0, 1); break; }
    default: { w.klass((uint32_t)-1, "Invalid", 1); w.field((uint32_t)-1, "Missing", "m", 8, DT_STRUCT); w.head((uint32_t)-1, 1, 1); w.klass(12, "C", 1); w.field(12, "const char*", "p", 8, DT_POINTER); w.head(12, 3, 4); w.num(1, 8); }
    }
    if (r.chance(30)) for (size_t i = 0, n = r.below(100); i < n; i++) w.out.push_back((uint8_t)r.next());
    return w.out;
}
// Everything a consumer does with an event must be safe too.
static uint64_t g_seen;
static void touch(const hp::Event& e) {
    g_seen++;
    auto k = e.get_klass();
    if (k) { k->get_field("no such field", true); k->get_field("label", true); k->get_field("base", false); k->get_fields(); }
    hp::Event copy(e);
    e.has_value("timestamp"); e.get_value_or_default<uint64_t>("timestamp", 0);
}
static void check(const std::vector<uint8_t>& good, const std::vector<uint8_t>& data, size_t damage, const char* kind, uint64_t cn) {
    for (int flat = 0; flat < 2; flat++) {
        Parsed p = parse_bytes(data, flat != 0, touch);
        Decoder d(good.data(), damage ? good.size() : 0, UC); d.all();
        size_t must = 0; while (must < d.events.size() && d.events[must].end <= damage) must++;
        for (size_t i = 0; i < must; i++) {
            std::string w = flat ? canon_flat(d.events[i]) : canon_nested(d.events[i]);
            if (i >= p.events.size()) { violation("intact-event-lost", "case %llu %s flat %d: %zu of %zu events before byte %zu reported", (unsigned long long)cn, kind, flat, p.events.size(), must, damage); break; }
            if (p.events[i] != w) { violation("intact-event-changed", "case %llu %s flat %d event %zu: %s instead of %s", (unsigned long long)cn, kind, flat, i, p.events[i].substr(0, 700).c_str(), w.substr(0, 700).c_str()); break; }
        }
        stat("intact_events_checked", must);
        if (data.size() == damage && p.events.size() > must) violation("incomplete-event-reported", "case %llu %s flat %d: truncated to %zu bytes, %zu events complete but %zu reported, last %s", (unsigned long long)cn, kind, flat, damage, must, p.events.size(), p.events.back().substr(0, 300).c_str());
        stat("events_reported", p.events.size());
    }
    Hash h; h.add(data.data(), data.size()); if (data.size() > 21) sig(h.h);
    stat("cases"); stat(std::string("inputs_") + kind);
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 15485863 + cn);
        unsigned mode = r.below(10);
        if (mode < 2) {
            auto g = hostile_stream(r);
            if (getenv("HV_TRACE")) fprintf(stderr, "case %llu hostile %s\n", (unsigned long long)cn, hex(g.data(), g.size(), 4000).c_str());
            // the independent decoder says how far the stream is sound
            check(g, g, 0, "hostile", cn);
            continue;
        }
        auto g = valid_stream(r);
        if (mode == 2) { check(g, g, g.size(), "valid", cn); continue; }
        if (mode < 6) {
            size_t cut = r.below(g.size() + 1);
            auto t = g; t.resize(cut); check(g, t, cut, "truncated", cn);
            if (cn % 40 == 0) { // every cut point of a short stream
                auto s = g; if (s.size() > 400) s.resize(400);
                for (size_t c = 0; c <= s.size() && !violated(); c++) { auto u = s; u.resize(c); check(s, u, c, "truncated_all", cn); }
            }
            continue;
        }
        auto m = g; size_t first = m.size();
        unsigned n = (unsigned)r.range(1, 4);
        for (unsigned i = 0; i < n && !m.empty(); i++) {
            size_t at = r.chance(20) ? r.below(std::min<size_t>(m.size(), 120)) : r.below(m.size());
            first = std::min(first, at);
            switch (r.below(6)) {
            case 0: m[at] ^= 1u << r.below(8); break;
            case 1: m[at] = (uint8_t)r.next(); break;
            case 2: { size_t k = std::min<size_t>(r.range(1, 16), m.size() - at); m.erase(m.begin() + at, m.begin() + at + k); break; }
            case 3: { std::vector<uint8_t> ins(r.range(1, 16)); for (auto& b : ins) b = (uint8_t)r.next(); m.insert(m.begin() + at, ins.begin(), ins.end()); break; }
            case 4: for (size_t k = 0; k < 8 && at + k < m.size(); k++) m[at + k] = (uint8_t)(r.chance(50) ? 0xff : 0); break;
            default: { size_t k = std::min<size_t>(r.range(1, 200), m.size() - at); std::vector<uint8_t> dup(m.begin() + at, m.begin() + at + k); m.insert(m.begin() + at, dup.begin(), dup.end()); }
            }
        }
        check(g, m, first, "corrupted", cn);
        if (cn < 4) sample("corrupted from byte %zu of %zu: %s", first, m.size(), hex(m.data() + first, m.size() - first, 40).c_str());
    }
    stat("events_consumed", g_seen);
    done(); return 0;
}
