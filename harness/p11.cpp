// P11: class registration and description, against a model of dynamically created classes.
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <hawktracer/timeline_listener.h>
#include <hawktracer/events.h>
using namespace hv;
static size_t f_size(HT_Event*) { return 20; }
static size_t f_ser(HT_Event*, HT_Byte*) { return 20; }
struct K { std::string name; std::vector<std::string> strs; std::vector<MKCREFLECT_FieldInfo> f; MKCREFLECT_TypeInfo ti; HT_EventKlass* k = nullptr; std::string base; std::atomic<uint64_t> done_at{0}; };
struct FD { std::string type, name; uint64_t size; unsigned dt; };
struct KD { std::string name; uint32_t id; unsigned announced; std::vector<FD> f; };
static std::string word(Rng& r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)("abcdefghijklmnopqrstuvwxyz_ABC0123456789"[r.below(40)]); return s; }
static std::unique_ptr<K> make(Rng& r, unsigned no, const std::vector<std::unique_ptr<K>>& prev, bool longer) {
    std::unique_ptr<K> k(new K); size_t nl = r.chance(5) ? r.below(longer ? 9000 : 300) : r.below(40);
    k->name = "K" + std::to_string(no) + "_" + word(r, nl); unsigned nf = r.chance(5) ? (unsigned)r.below(200) : (unsigned)r.below(12);
    k->base = prev.empty() || r.chance(50) ? "HT_Event" : prev[r.below(prev.size())]->name;
    k->strs.reserve(2 * nf + 4);
    auto add = [&](const std::string& t, const std::string& n, size_t sz, int sg, MKCREFLECT_Types dt) { k->strs.push_back(t); const char* a = k->strs.back().c_str(); k->strs.push_back(n); const char* b = k->strs.back().c_str(); MKCREFLECT_FieldInfo f; memset(&f, 0, sizeof f); f.field_type = a; f.field_name = b; f.size = sz; f.is_signed = sg; f.data_type = dt; k->f.push_back(f); };
    add(k->base, "base", r.below(100), 0, MKCREFLECT_TYPES_STRUCT);
    for (unsigned i = 0; i < nf; i++) {
        std::string n = "f" + std::to_string(i) + word(r, r.chance(3) ? r.below(longer ? 6000 : 200) : r.below(20)); size_t sz = 1u << r.below(4); int sg = r.chance(50);
        switch (r.below(6)) { case 0: add("const char*", n, 8, r.chance(50), MKCREFLECT_TYPES_STRING); break; case 1: add("double", n, 8, 1, MKCREFLECT_TYPES_DOUBLE); break; case 2: add("void*", n, 8, 0, MKCREFLECT_TYPES_POINTER); break; default: add(std::string(sg ? "int" : "uint") + std::to_string(8 * sz) + "_t" + word(r, r.chance(3) ? 100 : 0), n, sz, sg, MKCREFLECT_TYPES_INTEGER); }
    }
    k->ti.name = k->name.c_str(); k->ti.fields_count = k->f.size(); k->ti.size = 24; k->ti.packed_size = 20; k->ti.fields = k->f.data();
    k->k = (HT_EventKlass*)calloc(1, sizeof(HT_EventKlass)); k->k->type_info = &k->ti; k->k->serialize = f_ser; k->k->get_size = f_size; k->k->klass_id = HT_INVALID_KLASS_ID;
    return k;
}
struct Sink { bool ser; Bytes b; };
static void cb(TEventPtr e, size_t n, HT_Boolean ser, void* ud) { Sink* s = (Sink*)ud; if ((ser != 0) != s->ser) violation("wrong-mode-flag", "-"); s->b.insert(s->b.end(), e, e + n); }
// Raw descriptions hold pointers into the classes: they are read back at once.
struct RawSink { bool ser; std::vector<KD> ks; bool first = true; std::string err; unsigned events = 0; size_t bytes = 0; };
static void field(std::vector<KD>& ks, uint32_t id, FD f, std::string& err) { for (auto& k : ks) if (k.id == id) { k.f.push_back(f); return; } err = "field of class " + std::to_string(id) + " before the class"; }
static void cb_raw(TEventPtr e, size_t n, HT_Boolean, void* ud) {
    RawSink* s = (RawSink*)ud; size_t pos = 0; s->bytes += n;
    while (pos < n) {
        HT_Event* ev = (HT_Event*)(e + pos); alignas(16) uint8_t tmp[256]; size_t sz = struct_size(ev); if (!sz || sz > n - pos) { s->err = "partial or foreign raw event"; return; } memcpy(tmp, ev, sz);
        if (s->first && ev->klass != HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)) s->err = "does not start with byte order"; s->first = false; s->events++;
        if (ev->klass == HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent)) { auto k = (HT_EventKlassInfoEvent*)tmp; s->ks.push_back({k->event_klass_name, k->info_klass_id, k->field_count, {}}); }
        else if (ev->klass == HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent)) { auto f = (HT_EventKlassFieldInfoEvent*)tmp; field(s->ks, f->info_klass_id, {f->field_type, f->field_name, f->size, f->data_type}, s->err); }
        pos += sz;
    }
}
static std::vector<KD> describe(bool ser, std::string& err) {
    if (!ser) { RawSink s; s.ser = false; size_t n = ht_timeline_listener_push_metadata(cb_raw, &s, HT_FALSE); err = s.err; if (err.empty() && n != s.bytes) err = "announced size differs from what was delivered"; return s.ks; }
    Sink s; s.ser = true; size_t announced = ht_timeline_listener_push_metadata(cb, &s, HT_TRUE); if (announced != s.b.size()) err = "announced size differs from what was delivered";
    std::vector<KD> ks; Decoder d(s.b.data(), s.b.size(), HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); DEvent e; unsigned i = 0;
    while (d.next(e)) {
        if (i++ == 0 && e.klass != 0) err = "does not start with byte order";
        if (e.klass == 2) ks.push_back({Decoder::find(e.vals, "event_klass_name")->s, (uint32_t)Decoder::find(e.vals, "info_klass_id")->u, (unsigned)Decoder::find(e.vals, "field_count")->u, {}});
        if (e.klass == 3) field(ks, (uint32_t)Decoder::find(e.vals, "info_klass_id")->u, {Decoder::find(e.vals, "field_type")->s, Decoder::find(e.vals, "field_name")->s, Decoder::find(e.vals, "size")->u, (unsigned)Decoder::find(e.vals, "data_type")->u}, err);
    }
    if (!d.ok || d.pos != s.b.size()) err = "undecodable: " + d.err + " at " + std::to_string(d.pos) + " of " + std::to_string(s.b.size());
    return ks;
}
// must: classes that have to be there; may: classes that may be there.
static void check(uint64_t cn, bool ser, const std::vector<KD>& ks, const std::string& err, const std::vector<K*>& must, const std::map<std::string, K*>& known, bool order) {
    auto bad = [&](const char* key, const std::string& d) { violation(key, "case %" PRIu64 " (%s, %zu classes): %s", cn, ser ? "serialised" : "raw", known.size(), d.substr(0, 300).c_str()); };
    if (!err.empty()) { bad("malformed-description", err); return; }
    std::map<std::string, const KD*> by; std::set<uint32_t> ids; std::set<std::string> before;
    for (auto& k : ks) {
        if (!by.emplace(k.name, &k).second) bad("class-described-twice", k.name); if (!ids.insert(k.id).second) bad("identifier-shared", std::to_string(k.id));
        auto it = known.find(k.name); if (it == known.end()) { if (k.name.compare(0, 3, "HT_")) bad("unknown-class-described", k.name); before.insert(k.name); continue; }
        K* m = it->second;
        if (k.f.size() != m->f.size() || k.announced != (m->f.size() & 255)) { bad("wrong-fields", k.name + ": " + std::to_string(k.f.size()) + " fields instead of " + std::to_string(m->f.size())); continue; }
        for (size_t i = 0; i < m->f.size(); i++) {
            const FD& g = k.f[i]; const MKCREFLECT_FieldInfo& w = m->f[i]; unsigned dt = w.data_type == MKCREFLECT_TYPES_INTEGER && !w.is_signed ? (unsigned)HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER : (unsigned)w.data_type;
            if (g.type != w.field_type || g.name != w.field_name || g.size != w.size || g.dt != dt) { bad("wrong-fields", k.name + " field " + std::to_string(i) + ": " + g.type + " " + g.name + " size " + std::to_string(g.size) + " kind " + std::to_string(g.dt) + ", declared " + w.field_type + " " + w.field_name + " size " + std::to_string(w.size) + " kind " + std::to_string(dt)); break; }
        }
        if (order && !before.count(m->base)) bad("base-described-late", k.name + " before its base " + m->base);
        before.insert(k.name); stat("descriptions_checked");
    }
    for (const char* core : {"HT_EndiannessInfoEvent", "HT_Event", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent", "HT_CallstackBaseEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent", "HT_StringMappingEvent", "HT_SystemInfoEvent"}) if (!by.count(core)) bad("class-missing", core);
    for (K* m : must) { auto it = by.find(m->name); if (it == by.end()) bad("class-missing", m->name); else if (it->second->id != m->k->klass_id) bad("wrong-identifier", m->name); }
}
static std::atomic<uint64_t> g_clock{1};
// ---- classes declared with the library's macros, registered from several threads that use them at once
static const unsigned NM = 9;
static uint32_t reg_macro(unsigned i) {
    switch (i) { case 0: return HT_REGISTER_EVENT_KLASS(HvTiny); case 1: return HT_REGISTER_EVENT_KLASS(HvSeq); case 2: return HT_REGISTER_EVENT_KLASS(HvMix); case 3: return HT_REGISTER_EVENT_KLASS(HvDerived); case 4: return HT_REGISTER_EVENT_KLASS(HvBig);
    case 5: return HT_REGISTER_EVENT_KLASS(HvCall); case 6: return HT_REGISTER_EVENT_KLASS(HvCallSmall); case 7: return HT_REGISTER_EVENT_KLASS(HT_StringMappingEvent); default: return HT_REGISTER_EVENT_KLASS(HvCallWide); }
}
static HT_EventKlass* inst_macro(unsigned i) {
    switch (i) { case 0: return HT_EVENT_KLASS_GET(HvTiny); case 1: return HT_EVENT_KLASS_GET(HvSeq); case 2: return HT_EVENT_KLASS_GET(HvMix); case 3: return HT_EVENT_KLASS_GET(HvDerived); case 4: return HT_EVENT_KLASS_GET(HvBig);
    case 5: return HT_EVENT_KLASS_GET(HvCall); case 6: return HT_EVENT_KLASS_GET(HvCallSmall); case 7: return HT_EVENT_KLASS_GET(HT_StringMappingEvent); default: return HT_EVENT_KLASS_GET(HvCallWide); }
}
static const char* const g_macro_names[NM] = {"HvTiny", "HvSeq", "HvMix", "HvDerived", "HvBig", "HvCall", "HvCallSmall", "HT_StringMappingEvent", "HvCallWide"};
static void macro_cb(TEventPtr e, size_t n, HT_Boolean ser, void* ud) {
    std::pair<uint64_t, uint64_t>* got = (std::pair<uint64_t, uint64_t>*)ud;
    if (ser) { Bytes b(e, e + n); got->second += n; return; }
    if (n % sizeof(HvBig)) { violation("torn-event", "batch of %zu bytes of events of %zu", n, sizeof(HvBig)); return; }
    for (size_t i = 0; i < n; i += sizeof(HvBig)) { HvBig b; memcpy((void*)&b, e + i, sizeof b); if (b.f0 != got->second || b.f15 != ~got->second || HT_EVENT(&b)->klass != HT_EVENT_KLASS_GET(HvBig)) violation("torn-event", "event %" PRIu64, got->second); got->second++; }
}
static void macros(uint64_t cn, uint64_t seed) {
    Rng r(seed); hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(5, 100), r.next());
    ht_init(0, NULL); std::set<unsigned> not_here; for (unsigned i = 0; i < NM; i++) if (i != 7) inst_macro(i)->type_info = NULL; // as in a program just started
    unsigned nt = (unsigned)r.range(2, 6), nd = (unsigned)r.below(3); std::vector<std::vector<uint32_t>> got(nt, std::vector<uint32_t>(NM, HT_INVALID_KLASS_ID)); std::atomic<unsigned> ready{0}, left{nt}; std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
        Rng q(seed * 31 + t); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        HT_ErrorCode err; std::pair<uint64_t, uint64_t> seen(t, 0); HT_Timeline* tl = ht_timeline_create(q.below(600), HT_FALSE, HT_FALSE, NULL, &err); ht_timeline_register_listener(tl, macro_cb, &seen); uint64_t n = 0; unsigned off = (unsigned)q.below(NM);
        for (unsigned k = 0; k < NM; k++) for (unsigned rep = 0; rep < 1 + q.below(3); rep++) {
            unsigned j = (k * 4 + off) % NM; uint32_t v = reg_macro(j); if (v == HT_INVALID_KLASS_ID) violation("register-failed", "%s", g_macro_names[j]); if (got[t][j] != HT_INVALID_KLASS_ID && got[t][j] != v) violation("identifier-changed", "%s", g_macro_names[j]); got[t][j] = v;
            if (inst_macro(j)->klass_id != v) violation("identifier-changed", "%s: not the one in use", g_macro_names[j]);
            if (got[t][4] != HT_INVALID_KLASS_ID) { HT_DECL_EVENT(HvBig, e); ht_timeline_init_event(tl, HT_EVENT(&e)); e.f0 = n; e.f15 = ~n; n++; ht_timeline_push_event(tl, HT_EVENT(&e)); }
        }
        ht_timeline_destroy(tl); if (seen.second != n) violation("events-lost", "%" PRIu64 " of %" PRIu64, seen.second, n);
        left.fetch_sub(1, std::memory_order_relaxed);
    });
    for (unsigned t = 0; t < nd; t++) th.emplace_back([&] { while (left.load(std::memory_order_relaxed)) { std::string e; auto ks = describe(true, e); if (!e.empty()) violation("malformed-description", "case %" PRIu64 ": %s", cn, e.c_str()); std::set<std::string> s; for (auto& k : ks) if (!s.insert(k.name).second) violation("class-described-twice", "%s", k.name.c_str()); stat("description_streams"); } });
    for (auto& x : th) x.join();
    hv_perturb_set(0, 0); std::set<uint32_t> ids; Hash h; std::string e; std::map<std::string, const KD*> by; auto ks = describe(true, e); for (auto& k : ks) by[k.name] = &k;
    for (unsigned j = 0; j < NM; j++) {
        for (unsigned t = 1; t < nt; t++) if (got[t][j] != got[0][j]) violation("registered-twice", "case %" PRIu64 ": %s is %u and %u", cn, g_macro_names[j], got[0][j], got[t][j]);
        if (!ids.insert(got[0][j]).second) violation("identifier-shared", "%s", g_macro_names[j]);
        auto it = by.find(g_macro_names[j]); if (it == by.end()) violation("class-missing", "%s", g_macro_names[j]); else if (it->second->id != got[0][j] || it->second->f.size() != inst_macro(j)->type_info->fields_count) violation("wrong-fields", "%s", g_macro_names[j]);
        h.add(got[0][j]);
    }
    sig(h.h); stat("cases"); stat("macro_cases"); ht_deinit();
}
int main(int argc, char** argv) {
    Args a(argc, argv); std::string mode = a.str("mode", "seq");
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        if (mode == "macros") { macros(cn, a.seed * 30011 + cn); continue; }
        Rng r(a.seed * 30011 + cn); ht_init(0, NULL); std::vector<std::unique_ptr<K>> ks; Hash h; unsigned descr = 0;
        unsigned n = r.chance(10) ? (unsigned)r.below(400) : (unsigned)r.below(40); bool longer = r.chance(30);
        std::map<std::string, K*> known;
        if (mode == "seq") {
            std::map<HT_EventKlass*, uint32_t> id; std::vector<K*> must;
            for (unsigned i = 0; i < n; i++) {
                ks.push_back(make(r, i, ks, longer)); K* k = ks.back().get(); known[k->name] = k; must.push_back(k);
                for (unsigned rep = 0; rep < 1 + r.below(3); rep++) { K* x = rep ? ks[r.below(ks.size())].get() : k; uint32_t v = ht_registry_register_event_klass(x->k); if (v == HT_INVALID_KLASS_ID || v != x->k->klass_id) violation("wrong-identifier", "case %" PRIu64 ": returned %u, class says %u", cn, v, x->k->klass_id); if (id.count(x->k) && id[x->k] != v) violation("identifier-changed", "case %" PRIu64 ": %u then %u", cn, id[x->k], v); id[x->k] = v; }
                h.add(k->f.size()); h.add(k->name);
                if (r.chance(n > 60 ? 1 : 8)) { std::string e; bool ser = r.chance(60); auto d = describe(ser, e); check(cn, ser, d, e, must, known, true); descr++; }
            }
            for (int ser = 0; ser < 2; ser++) { std::string e; auto d = describe(ser, e); check(cn, ser, d, e, must, known, true); descr++; }
            size_t cnt; HT_EventKlass** list = ht_registry_get_event_klasses(&cnt); std::map<HT_EventKlass*, unsigned> in; for (size_t i = 0; i < cnt; i++) in[list[i]]++; for (K* m : must) if (in[m->k] != 1) violation("class-missing", "case %" PRIu64 ": listed %u times", cn, in[m->k]);
        } else {
            n = (unsigned)r.range(3, 60); unsigned nt = (unsigned)r.range(2, 5), nd = (unsigned)r.range(1, 3); for (unsigned i = 0; i < n; i++) { ks.push_back(make(r, i, ks, false)); known[ks.back()->name] = ks.back().get(); }
            hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(5, 100), r.next());
            std::vector<std::vector<uint32_t>> got(nt, std::vector<uint32_t>(n, HT_INVALID_KLASS_ID)); std::vector<std::thread> th; std::atomic<unsigned> ready{0}, left{nt};
            struct Obs { bool ser; uint64_t start; std::vector<KD> ks; std::string err; }; std::vector<std::vector<Obs>> obs(nd);
            for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
                Rng q(a.seed + cn * 5 + t); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
                unsigned off = (unsigned)q.below(n); bool all = q.chance(50);
                for (unsigned i = 0; i < n; i++) { unsigned j = all ? i : (i * 7 + off) % n; for (unsigned rep = 0; rep < 1 + q.below(2); rep++) { uint32_t v = ht_registry_register_event_klass(ks[j]->k); if (got[t][j] != HT_INVALID_KLASS_ID && got[t][j] != v) violation("identifier-changed", "case %" PRIu64, cn); got[t][j] = v; } uint64_t z = 0; ks[j]->done_at.compare_exchange_strong(z, g_clock.fetch_add(1, std::memory_order_relaxed), std::memory_order_relaxed); }
                left.fetch_sub(1, std::memory_order_relaxed);
            });
            for (unsigned t = 0; t < nd; t++) th.emplace_back([&, t] { Rng q(a.seed + cn * 9 + t); while (left.load(std::memory_order_relaxed)) { Obs o; o.ser = q.chance(60); o.start = g_clock.fetch_add(1, std::memory_order_relaxed); o.ks = describe(o.ser, o.err); obs[t].push_back(std::move(o)); if (obs[t].size() > 60) break; } });
            for (auto& x : th) x.join();
            hv_perturb_set(0, 0);
            bool covered = true; for (unsigned j = 0; j < n; j++) covered &= ks[j]->done_at.load() != 0;
            std::map<uint32_t, unsigned> uniq;
            for (unsigned j = 0; j < n; j++) { uint32_t id = HT_INVALID_KLASS_ID; for (unsigned t = 0; t < nt; t++) if (got[t][j] != HT_INVALID_KLASS_ID) { if (id == HT_INVALID_KLASS_ID) id = got[t][j]; if (got[t][j] != id) violation("registered-twice", "case %" PRIu64 ": one class got identifiers %u and %u in different threads", cn, id, got[t][j]); } if (id != HT_INVALID_KLASS_ID && uniq.count(id)) violation("identifier-shared", "case %" PRIu64 ": %u", cn, id); uniq[id] = j; h.add(id); }
            for (auto& v : obs) for (auto& o : v) { std::vector<K*> must; for (auto& k : ks) if (k->done_at.load() && k->done_at.load() < o.start) must.push_back(k.get()); check(cn, o.ser, o.ks, o.err, must, known, false); descr++; h.add(must.size()); }
            std::vector<K*> must; for (auto& k : ks) if (k->done_at.load()) must.push_back(k.get()); std::string e; auto d = describe(true, e); check(cn, true, d, e, must, known, false); (void)covered;
        }
        if (n >= 2) sig(h.h);
        stat("cases"); stat("classes", n); stat("description_streams", descr);
        if (cn < 2) sample("%s: classes=%u descriptions=%u", mode.c_str(), n, descr);
        ht_deinit();
        for (auto& k : ks) free(k->k);
    }
    done(); return 0;
}
