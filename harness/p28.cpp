// P28: events handed out by the parser are self-contained values; the class register can be queried while it grows; the debugging listener prints them exactly.
#include "hv_parse.hpp"
#include "hv_stream.hpp"
#include <hawktracer/parser/debug_event_listener.hpp>
#include <iostream>
#include <memory>
#include <sstream>
using namespace hv;
static const unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
struct Slot { std::unique_ptr<hp::Event> e; std::string want; uint64_t ts = 0; };
static std::string g_where;
static void bad(const char* key, const char* fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(key, "%s: %s", g_where.c_str(), b); }
static bool check(const Slot& s, const char* when) {
    std::string got = pevent(*s.e); stat("comparisons");
    if (got != s.want) { bad("value-changed", "%s: %s instead of %s", when, got.substr(0, 900).c_str(), s.want.substr(0, 900).c_str()); return false; }
    if (s.e->get_timestamp() != s.ts) { bad("timestamp-changed", "%s: %" PRIu64 " instead of %" PRIu64, when, (uint64_t)s.e->get_timestamp(), s.ts); return false; }
    return true;
}
// every string and nested event an event owns
static void owned(const hp::Event& e, std::set<const void*>& out) {
    for (auto& v : e.get_values()) {
        if (!v.second.field) continue;
        auto t = v.second.field->get_type_id();
        if (t == hp::FieldTypeId::STRING && v.second.value.f_STRING && !out.insert(v.second.value.f_STRING).second) bad("shared-storage", "two values share the string of %s", v.first.c_str());
        if (t == hp::FieldTypeId::STRUCT && v.second.value.f_EVENT) { if (!out.insert(v.second.value.f_EVENT).second) bad("shared-storage", "two events share the nested event %s", v.first.c_str()); owned(*v.second.value.f_EVENT, out); }
    }
}
// the fields user code adds; they outlive all events
static std::vector<std::unique_ptr<hp::EventKlassField>> g_fields;
static const hp::EventKlassField* add_field(hp::FieldTypeId t, std::shared_ptr<const hp::EventKlass> k = nullptr) {
    static const char* tn[] = {"uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "void*", "const char*", "Nested"};
    g_fields.emplace_back(new hp::EventKlassField("user" + std::to_string(g_fields.size()), k ? k->get_name() : tn[(int)t], t, k)); return g_fields.back().get();
}
static void mutate(Rng& r, Slot& s, const std::vector<Slot>& pool) {
    uint64_t v = r.interesting(); auto t = (hp::FieldTypeId)r.below(11); std::string exact;
    if (t == hp::FieldTypeId::STRUCT) {
        const Slot& o = pool[r.below(pool.size())]; if (!o.e || &o == &s || o.want.size() > 4000) return;
        auto f = add_field(t, o.e->get_klass()); s.e->set_value(f, new hp::Event(*o.e)); // the event takes ownership
        if (s.e->get_value<hp::Event*>(f->get_name())->get_timestamp() != o.ts) bad("set-value", "nested event is not the one set");
    } else {
        auto f = add_field(t); std::string n = f->get_name();
        switch (t) {
#define NUM(ID, T) case hp::FieldTypeId::ID: s.e->set_value(f, (T)v); if (s.e->get_value<T>(n) != (T)v || s.e->get_value_or_default<T>(n, (T)(v + 1)) != (T)v) bad("set-value", "%s is not the value set", #T); break;
        NUM(UINT8, uint8_t) NUM(INT8, int8_t) NUM(UINT16, uint16_t) NUM(INT16, int16_t) NUM(UINT32, uint32_t) NUM(INT32, int32_t) NUM(UINT64, uint64_t) NUM(INT64, int64_t)
        case hp::FieldTypeId::POINTER: s.e->set_value(f, (void*)(uintptr_t)v); if (s.e->get_value<void*>(n) != (void*)(uintptr_t)v) bad("set-value", "pointer"); break;
        default: { std::string x; for (size_t i = r.below(r.chance(5) ? 3000 : 20); i; i--) x += (char)r.range(1, 255); char* p = r.chance(10) ? nullptr : strdup(x.c_str()); s.e->set_value(f, p); if (s.e->get_value<char*>(n) != p) bad("set-value", "string"); }
        }
        if (!s.e->has_value(n) || s.e->get_raw_value(n).field != f) bad("set-value", "the value set is not there");
        if (s.e->get_value_or_default<uint32_t>("no such field", 77) != 77 || s.e->has_value("no such field")) bad("absent-value", "a value that was never set");
    }
    s.want = pevent(*s.e); stat("mutations");
}
struct Made { std::vector<uint8_t> d; std::vector<std::string> nested, flat; std::vector<uint64_t> ts; };
static Made make(Rng& r, bool plain_strings) {
    Made m; Writer w; w.big = r.chance(30); w.endianness(w.big); auto ks = random_klasses(r, r.range(1, 7), 3); size_t ne = r.range(1, 25), described = r.chance(50) ? ks.size() : 1;
    for (size_t i = 0; i < described; i++) write_klass(w, ks, ks[i], UC);
    for (size_t i = 0; i < ne; i++) {
        if (described < ks.size() && r.chance(30)) { write_klass(w, ks, ks[described], UC); described++; }
        DEvent e = write_event(w, ks, ks[r.below(described)], r, 30); m.nested.push_back(canon_nested(e)); m.flat.push_back(canon_flat(e)); m.ts.push_back(e.ts);
    }
    if (plain_strings) for (auto& b : m.d) (void)b;
    m.d = w.out; return m;
}
// nested events folded into one, the way flat reading does it
static void fold(hp::Event& into, const hp::Event& e) { for (auto& v : e.get_values()) if (v.second.field && v.second.field->get_type_id() == hp::FieldTypeId::STRUCT && v.second.value.f_EVENT) { into.merge(*v.second.value.f_EVENT); fold(into, *v.second.value.f_EVENT); } }

static void values_case(uint64_t seed) {
    Rng r(seed); Made m = make(r, false); bool flat = r.chance(40); std::vector<Slot> pool; std::vector<hp::Event> grown; std::vector<std::string> grown_want; Hash h;
    {
        hp::KlassRegister kr; size_t n = 0;
        {
            hp::ProtocolReader rd(&kr, std::unique_ptr<hp::Stream>(new MemStream(&m.d)), flat);
            rd.register_events_listener([&](const hp::Event& e) {
                std::string nm = e.get_klass()->get_name(); if (!nm.compare(0, 13, "HT_EventKlass") || nm == "HT_EndiannessInfoEvent") return;
                std::string now = pevent(e);
                if (n < m.flat.size() && (flat ? now : strip_known_base(now)) != (flat ? m.flat[n] : m.nested[n])) bad("value-mismatch", "event %zu read as %s", n, now.substr(0, 500).c_str());
                if (flat && n < m.ts.size() && e.get_timestamp() != m.ts[n]) bad("timestamp-mismatch", "event %zu has time %" PRIu64, n, (uint64_t)e.get_timestamp());
                n++;
                Slot s; s.want = now; s.ts = e.get_timestamp(); s.e.reset(new hp::Event(e)); pool.push_back(std::move(s));
                if (r.chance(40)) { grown.push_back(e); grown_want.push_back(now); }
                if (r.chance(20) && pool.size() > 1) { Slot& o = pool[r.below(pool.size() - 1)]; *o.e = e; o.want = now; o.ts = e.get_timestamp(); stat("assigned_while_reading"); } // user code that keeps the latest event in a variable
            });
            if (!rd.start()) bad("start-failed", "-"); rd.wait_for_complete();
        }
        if (n != m.flat.size()) bad("event-count", "%zu of %zu events", n, m.flat.size());
    }
    // the reader, its stream and the class register are gone
    for (size_t i = 0; i < grown.size(); i++) if (pevent(grown[i]) != grown_want[i]) bad("value-changed", "in a growing vector");
    if (pool.empty()) return;
    for (auto& s : pool) check(s, "after the reader was destroyed");
    if (pool.size() > 12) pool.resize(12);
    for (unsigned step = (unsigned)r.range(20, 80); step && violation_count() < 3; step--) {
        size_t i = r.below(pool.size()), j = r.below(pool.size()); Slot &a = pool[i], &b = pool[j]; unsigned op = (unsigned)r.below(9); h.add(op * 1000 + i * 20 + j);
        switch (op) {
        case 0: { Slot s; s.want = b.want; s.ts = b.ts; s.e.reset(new hp::Event(*b.e)); pool[i] = std::move(s); break; }                 // copy
        case 1: *a.e = *b.e; a.want = b.want; a.ts = b.ts; break;                                                                      // assign (also to itself)
        case 2: { hp::Event t(std::move(*a.e)); a.e.reset(new hp::Event(std::move(t))); break; }                                       // move there and on
        case 3: { hp::Event t(*b.e); *a.e = std::move(t); a.want = b.want; a.ts = b.ts; break; }                                        // assign a temporary
        case 4: { if (i != j) { std::swap(*a.e, *b.e); std::swap(a.want, b.want); std::swap(a.ts, b.ts); } break; }
        case 5: if (a.want.size() < 20000) mutate(r, a, pool); break;
        case 6: { std::vector<hp::Event> v; for (unsigned k = 0; k < 5; k++) v.push_back(*pool[r.below(pool.size())].e); v.insert(v.begin(), *b.e); v.erase(v.begin() + 2); if (pevent(v[0]) != b.want) bad("value-changed", "in a vector"); v = std::vector<hp::Event>(3, *a.e); if (pevent(v[2]) != a.want) bad("value-changed", "in a vector of copies"); break; }
        case 7: { std::thread t([&] { hp::Event c(*b.e); if (pevent(c) != b.want) bad("value-changed", "copied on another thread"); hp::Event d(c); c = d; }); hp::Event mine(*b.e); if (pevent(mine) != b.want) bad("value-changed", "copied while another thread copies"); t.join(); break; }
        default: { hp::Event v(*a.e); if (!b.e->get_values().empty()) { auto& y = b.e->get_values().begin()->second; if (y.field && y.field->is_numeric()) { hp::Event::Value x(y); if (pval(x) != pval(y)) bad("value-changed", "copied value"); hp::Event::Value z(std::move(x)); if (pval(z) != pval(y) || x.field) bad("value-changed", "moved value"); } } }
        }
        stat("operations");
        if (!check(a, "target of an operation") || !check(b, "source of an operation")) break;
    }
    std::set<const void*> own; for (auto& s : pool) { check(s, "at the end"); owned(*s.e, own); }
    // folding the nested events of a copy gives what flat reading gives, and leaves the original alone
    if (!flat) for (auto& g : grown) { std::string before = pevent(g); hp::Event f(g); fold(f, g); if (pevent(g) != before) bad("value-changed", "merging changed the source"); for (auto& v : f.get_values()) if (!v.second.field) bad("merge", "value without a field"); stat("merges"); }
    h.add(m.d.data(), m.d.size()); sig(h.h);
}
// class descriptions arrive while other threads look classes up
static void register_case(uint64_t seed, unsigned threads) {
    Rng r(seed); Writer w; w.endianness(0); auto ks = random_klasses(r, r.range(10, 40), 3); std::map<uint32_t, const SKlass*> by_id;
    for (auto& k : ks) { write_klass(w, ks, k, UC); by_id[k.id] = &k; if (r.chance(50)) write_event(w, ks, k, r, 10); }
    hp::KlassRegister kr; std::atomic<bool> stop{false}; std::vector<std::thread> th; std::atomic<uint64_t> lookups{0}, found{0};
    auto inspect = [&](const std::shared_ptr<const hp::EventKlass>& k, bool complete) {
        if (k->get_id() < 3 || !by_id.count(k->get_id())) return;
        const SKlass& want = *by_id[k->get_id()]; if (k->get_name() != want.name) bad("wrong-class", "class %u is called %s", k->get_id(), k->get_name().c_str());
        auto f = k->get_fields(); if (f.size() > want.fields.size() + 1 || (complete && f.size() != want.fields.size() + 1)) { bad("wrong-fields", "%s has %zu fields, %zu described", want.name.c_str(), f.size(), want.fields.size() + 1); return; }
        for (size_t i = 0; i < f.size(); i++) { // always a prefix of what is described
            std::string n = i ? want.fields[i - 1].name : "base", t = i ? want.fields[i - 1].type : want.base < 0 ? "HT_Event" : ks[want.base].name;
            if (f[i]->get_name() != n || f[i]->get_type_name() != t) bad("wrong-fields", "field %zu of %s is %s %s", i, want.name.c_str(), f[i]->get_type_name().c_str(), f[i]->get_name().c_str());
            if (!i && (!f[i]->get_klass() || f[i]->get_klass()->get_name() != t)) bad("wrong-fields", "base of %s", want.name.c_str());
            if (i && (f[i]->is_numeric() || f[i]->get_type_id() == hp::FieldTypeId::POINTER) && f[i]->get_sizeof() != want.fields[i - 1].size) bad("wrong-size", "%s.%s: %zu", want.name.c_str(), n.c_str(), f[i]->get_sizeof());
        }
        for (const SKlass* b = &want; complete; b = &ks[b->base]) { // inherited fields are found through any depth, and only when asked for
            for (auto& x : b->fields) { auto g = k->get_field(x.name.c_str(), true); if (!g || g->get_name() != x.name) bad("field-not-found", "%s in %s", x.name.c_str(), want.name.c_str()); if ((k->get_field(x.name.c_str(), false) != nullptr) != (b == &want)) bad("field-not-found", "%s in %s, not recursive", x.name.c_str(), want.name.c_str()); }
            if (b->base < 0) { if (!k->get_field("timestamp", true) || k->get_field("timestamp", false)) bad("field-not-found", "timestamp in %s", want.name.c_str()); break; }
        }
        found++;
    };
    for (unsigned t = 0; t < threads; t++) th.emplace_back([&, t] { Rng q(seed * 31 + t); size_t known = 0; while (!stop) {
        const SKlass& k = ks[q.below(ks.size())]; lookups++;
        switch (q.below(4)) {
        case 0: { auto all = kr.get_klasses(); if (all.size() < known) bad("class-vanished", "%zu classes, then %zu", known, all.size()); known = all.size(); for (auto& x : all) { if (x.second->get_id() != x.first) bad("wrong-class", "id"); inspect(x.second, false); } break; }
        case 1: { bool e = kr.klass_exists(k.id); auto p = kr.get_klass(k.id); if (e && !p) bad("class-vanished", "%u", k.id); if (p) inspect(p, false); break; }
        case 2: { auto p = kr.get_klass(k.name); if (p && p->get_name() != k.name) bad("wrong-class", "%s for %s", p->get_name().c_str(), k.name.c_str()); if (p) p->get_field("f1_1", true); break; }
        default: { uint32_t id = kr.get_klass_id(k.name); if (id != HT_INVALID_KLASS_ID && id != k.id) bad("wrong-class", "%s has id %u", k.name.c_str(), id); } } } });
    std::vector<std::unique_ptr<hp::Event>> kept; std::mutex km; std::thread user([&] { while (!stop) { std::unique_ptr<hp::Event> e; { std::lock_guard<std::mutex> l(km); if (!kept.empty()) { e = std::move(kept.back()); kept.pop_back(); } } if (e) { hp::Event c(*e); std::string s = pevent(c); hp::Event d(c); d = *e; if (pevent(d) != s) bad("value-changed", "copied on another thread"); } } });
    {
        hp::ProtocolReader rd(&kr, std::unique_ptr<hp::Stream>(new MemStream(&w.out)), r.chance(50));
        rd.register_events_listener([&](const hp::Event& e) { if (e.get_klass()->get_id() > 2) { std::lock_guard<std::mutex> l(km); kept.emplace_back(new hp::Event(e)); } });
        if (!rd.start()) bad("start-failed", "-"); rd.wait_for_complete();
    }
    stop = true; for (auto& t : th) t.join(); user.join();
    auto all = kr.get_klasses(); if (all.size() != ks.size() + 4) bad("class-vanished", "%zu classes, %zu described", all.size(), ks.size() + 4);
    for (auto& k : ks) { auto p = kr.get_klass(k.id); if (!p || !kr.klass_exists(k.id)) bad("class-vanished", "%s", k.name.c_str()); else inspect(p, true); }
    if (kr.klass_exists(0x7fffffff) || kr.get_klass(0x7fffffff) || kr.get_klass("no such class") || kr.get_klass_id("no such class") != HT_INVALID_KLASS_ID) bad("invented-class", "-");
    stat("lookups", lookups); stat("classes_inspected", found); Hash h; h.add(w.out.data(), w.out.size()); sig(h.h);
}
// what the debugging listener has to print, order of fields aside
struct Line { std::string text; std::vector<Line> sub; };
static std::string canon(std::vector<Line> v) { std::vector<std::string> s; for (auto& l : v) s.push_back(l.text + (l.sub.empty() ? "" : "[" + canon(l.sub) + "]")); std::sort(s.begin(), s.end()); std::string o; for (auto& x : s) o += x + "\n"; return o; }
static std::vector<Line> expected(const hp::Event& e) {
    std::vector<Line> out;
    for (auto& v : e.get_values()) {
        Line l; l.text = v.second.field->get_type_name() + " " + v.second.field->get_name() + ": "; char b[64] = "";
        switch (v.second.field->get_type_id()) {
        case hp::FieldTypeId::UINT8: snprintf(b, sizeof b, "%u", v.second.value.f_UINT8); break; case hp::FieldTypeId::INT8: snprintf(b, sizeof b, "%d", v.second.value.f_INT8); break;
        case hp::FieldTypeId::UINT16: snprintf(b, sizeof b, "%u", v.second.value.f_UINT16); break; case hp::FieldTypeId::INT16: snprintf(b, sizeof b, "%d", v.second.value.f_INT16); break;
        case hp::FieldTypeId::UINT32: snprintf(b, sizeof b, "%u", v.second.value.f_UINT32); break; case hp::FieldTypeId::INT32: snprintf(b, sizeof b, "%d", v.second.value.f_INT32); break;
        case hp::FieldTypeId::UINT64: snprintf(b, sizeof b, "%" PRIu64, v.second.value.f_UINT64); break; case hp::FieldTypeId::INT64: snprintf(b, sizeof b, "%" PRId64, v.second.value.f_INT64); break;
        case hp::FieldTypeId::STRING: l.text += v.second.value.f_STRING; break;
        case hp::FieldTypeId::STRUCT: l.sub = expected(*v.second.value.f_EVENT); if (l.sub.empty()) l.text += "<empty>"; break;
        default: snprintf(b, sizeof b, "?"); }
        l.text += b; out.push_back(l);
    }
    return out;
}
static std::vector<Line> nest(const std::vector<std::string>& ls, size_t& i, size_t indent) {
    std::vector<Line> out;
    while (i < ls.size()) { size_t n = ls[i].find_first_not_of(' '); if (n == std::string::npos || n < indent) break; if (n > indent) { if (out.empty()) break; out.back().sub = nest(ls, i, n); continue; } Line l; l.text = ls[i].substr(n); i++; out.push_back(l); }
    return out;
}
static void debug_case(uint64_t seed) {
    Rng r(seed); Writer w; w.big = r.chance(30); w.endianness(w.big); auto ks = random_klasses(r, r.range(1, 6), 3);
    for (auto& k : ks) write_klass(w, ks, k, UC);
    for (size_t i = r.range(1, 15); i; i--) write_event(w, ks, ks[r.below(ks.size())], r, 20);
    // what is printed is split into lines again
    size_t strings = 0; { hp::KlassRegister kr; hp::ProtocolReader rd(&kr, std::unique_ptr<hp::Stream>(new MemStream(&w.out)), true); (void)strings; }
    std::ostringstream os; std::vector<hp::Event> evs; hp::DebugEventListener dl; bool flat = r.chance(50); std::map<std::string, size_t> counts; std::string total;
    {
        hp::KlassRegister kr; hp::ProtocolReader rd(&kr, std::unique_ptr<hp::Stream>(new MemStream(&w.out)), flat);
        rd.register_events_listener([&](const hp::Event& e) { evs.push_back(e); }); if (!rd.start()) bad("start-failed", "-"); rd.wait_for_complete();
    }
    struct Redirect { std::streambuf* old; Redirect(std::streambuf* b) : old(std::cout.rdbuf(b)) {} ~Redirect() { std::cout.rdbuf(old); } };
    for (auto& e : evs) {
        std::ostringstream one; { Redirect rr(one.rdbuf()); dl(e); } counts[e.get_klass()->get_name()]++;
        std::string t = one.str(); std::vector<Line> want = expected(e); std::string wants = canon(want);
        bool odd = false; for (char c : wants) odd = odd || c == '\r' || c == 0; (void)odd;
        // strings with line ends cannot be split into lines: only their length is compared
        size_t raw = 0; { std::function<size_t(const std::vector<Line>&, size_t)> len = [&](const std::vector<Line>& v, size_t ind) { size_t n = 0; for (auto& l : v) n += ind + l.text.size() + 1 + len(l.sub, ind + 2); return n; }; raw = 1 + e.get_klass()->get_name().size() + 1 + len(want, 2); }
        bool has_nl = false; std::function<void(const std::vector<Line>&)> scan = [&](const std::vector<Line>& v) { for (auto& l : v) { if (l.text.find('\n') != std::string::npos) has_nl = true; scan(l.sub); } }; scan(want);
        if (t.size() != raw) { bad("wrong-print", "%zu bytes printed, %zu expected: %s", t.size(), raw, t.substr(0, 600).c_str()); continue; }
        if (has_nl) { stat("printed_with_line_ends"); continue; }
        std::vector<std::string> ls; std::istringstream is(t); for (std::string l; std::getline(is, l);) ls.push_back(l);
        if (ls.size() < 2 || !ls[0].empty() || ls[1] != e.get_klass()->get_name()) { bad("wrong-print", "%s", t.substr(0, 600).c_str()); continue; }
        size_t i = 2; std::string got = canon(nest(ls, i, 2)); stat("printed");
        if (got != wants) bad("wrong-print", "printed %s expected %s", got.substr(0, 900).c_str(), wants.substr(0, 900).c_str());
    }
    std::ostringstream st; { Redirect rr(st.rdbuf()); const hp::DebugEventListener& c = dl; c.print_statistics(); }
    std::multiset<std::string> got, want; std::istringstream is(st.str()); for (std::string l; std::getline(is, l);) got.insert(l);
    want.insert("Statistics: "); for (auto& c : counts) want.insert("  " + c.first + ": " + std::to_string(c.second)); want.insert("Total number of events: " + std::to_string(evs.size()));
    if (got != want) bad("wrong-statistics", "%s", st.str().substr(0, 900).c_str());
    Hash h; h.add(w.out.data(), w.out.size()); h.add(flat); sig(h.h);
}
int main(int argc, char** argv) {
    Args a(argc, argv); std::string mode = a.str("mode", "values"); unsigned threads = (unsigned)a.num("threads", 3);
    hv_perturb_set((unsigned)a.num("perturb", 0), a.seed);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        g_where = mode + " case " + std::to_string(cn); uint64_t seed = a.seed * 1000003 + cn;
        if (mode == "values") values_case(seed); else if (mode == "register") register_case(seed, threads); else debug_case(seed);
        if (cn == 0) sample("%s, seed %" PRIu64, mode.c_str(), seed);
        stat("cases");
    }
    done(); return 0;
}
