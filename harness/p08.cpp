// P08: cached-string identifiers against the mapping events actually delivered.
#include "hv_ev.hpp"
#include <sys/mman.h>
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/global_timeline.h>
using namespace hv;
struct Item { char what; uint64_t id; std::string label; }; // 'm' mapping, 'u' use (HvSeq: seq=id, text=label), 'c' callstack int event
struct Log { bool ser; std::vector<Item> items; };
static void parse(Log& g, TEventPtr ev, size_t size, HT_Boolean ser) {
    size_t pos = 0;
    if ((ser != 0) != g.ser) violation("wrong-mode-flag", "-");
    while (pos < size && violation_count() < 5) {
        if (ser) {
            uint32_t k; if (size - pos < 20) { violation("partial-event", "-"); return; } memcpy(&k, ev + pos, 4);
            auto str = [&](size_t off, std::string& s) { const uint8_t* b = ev + pos + off; const void* e = size - pos > off ? memchr(b, 0, size - pos - off) : nullptr; if (!e) { violation("partial-event", "-"); return false; } s.assign((const char*)b, (const uint8_t*)e - b); pos += off + s.size() + 1; return true; };
            Item it; if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { it.what = 'm'; memcpy(&it.id, ev + pos + 20, 8); if (!str(28, it.label)) return; }
            else if (k == HT_EVENT_KLASS_GET(HvSeq)->klass_id) { it.what = 'u'; memcpy(&it.id, ev + pos + 24, 8); if (!str(32, it.label)) return; }
            else if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { it.what = 'c'; memcpy(&it.id, ev + pos + 32, 8); pos += 40; }
            else { violation("torn-event", "class %u", k); return; }
            g.items.push_back(it);
        } else {
            HT_Event* e = (HT_Event*)(ev + pos); Item it;
            if (e->klass == HT_EVENT_KLASS_GET(HT_StringMappingEvent)) { HT_StringMappingEvent m; memcpy(&m, e, sizeof m); it.what = 'm'; it.id = m.identifier; it.label = m.label; pos += sizeof m; }
            else if (e->klass == HT_EVENT_KLASS_GET(HvSeq)) { HvSeq m; memcpy(&m, e, sizeof m); it.what = 'u'; it.id = m.seq; it.label = m.text; pos += sizeof m; }
            else if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) { HT_CallstackIntEvent m; memcpy(&m, e, sizeof m); it.what = 'c'; it.id = m.label; pos += sizeof m; }
            else { violation("torn-event", "-"); return; }
            g.items.push_back(it);
        }
    }
}
static void cb(TEventPtr ev, size_t size, HT_Boolean ser, void* ud) { parse(*(Log*)ud, ev, size, ser); }
static thread_local Log* t_log;
static void cb_global(TEventPtr ev, size_t size, HT_Boolean ser, void*) { if (t_log) parse(*t_log, ev, size, ser); }
extern "C" void hv_c_static(int which, void (*inside)(const char*)); // C macros; calls inside() within the scope
static std::vector<std::string*> g_used; // labels whose text must outlive uses in raw timelines
static std::vector<std::string> make_labels(Rng& r, unsigned n) {
    std::vector<std::string> v; std::set<std::string> have;
    while (v.size() < n) {
        std::string s; unsigned kind = (unsigned)r.below(6);
        if (kind < 3) { unsigned len = (unsigned)r.range(1, 5); for (unsigned i = 0; i < len; i++) s += r.chance(50) ? "ab" : "bA"; } // many labels with one hash
        else if (kind == 3) s = random_text(r, r.below(40));
        else if (kind == 4) { unsigned len = (unsigned)r.below(4); for (unsigned i = 0; i < len; i++) s += (char)('a' + r.below(3)); }
        else s = "lbl" + std::to_string(r.below(5000));
        if (have.insert(s).second) v.push_back(s); else if (r.chance(30)) v.push_back("uniq" + std::to_string(v.size()) + "_" + std::to_string(r.next()));
        have.insert(v.empty() ? "" : v.back());
    }
    return v;
}
struct Oracle {
    std::map<uint64_t, std::string> id2label; std::map<std::string, uint64_t> dyn; std::map<const char*, uint64_t> sta;
    void returned(uint64_t cn, bool dynamic, const char* ptr, const std::string& text, uint64_t id, bool& fresh) {
        fresh = false;
        if (!id) { violation("no-identifier", "case %" PRIu64 " label '%s'", cn, text.c_str()); return; }
        if (dynamic) { auto it = dyn.find(text); if (it == dyn.end()) { dyn[text] = id; fresh = true; } else if (it->second != id) violation("identifier-changed", "case %" PRIu64 " '%s' %" PRIx64 " then %" PRIx64, cn, text.c_str(), it->second, id); }
        else { auto it = sta.find(ptr); if (it == sta.end()) { sta[ptr] = id; fresh = true; } else if (it->second != id) violation("identifier-changed", "case %" PRIu64 " static '%s'", cn, text.c_str()); }
        auto f = id2label.find(id); if (f == id2label.end()) id2label[id] = text; else if (f->second != text) violation("identifier-shared", "case %" PRIu64 ": %" PRIx64 " is '%s' and '%s'", cn, id, f->second.c_str(), text.c_str());
    }
};
static const unsigned NSTATIC = 3000;
static char g_static[NSTATIC][12];
// static labels in areas whose addresses differ only in their high (or only in their middle) bits, as in different libraries
static std::vector<const char*> g_far;
static void place_far_labels() {
    char* base = (char*)mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) return;
    std::vector<char*> at{base};
    for (int sh = 20; sh < 44; sh++) for (int sign = 0; sign < 2; sign++) for (int mul = 1; mul < 4; mul += 2) {
        uint64_t d = (uint64_t)mul << sh; char* want = sign ? base - d : base + d;
        if ((uint64_t)want >> 47 || ((uint64_t)want >> 40) != ((uint64_t)base >> 40)) if (sh < 40) continue;
        void* p = mmap(want, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000 /* MAP_FIXED_NOREPLACE */, -1, 0);
        if (p == MAP_FAILED) continue; if (p != want) { munmap(p, 4096); continue; }
        at.push_back(want);
    }
    unsigned n = 0; for (char* a : at) for (int k = 0; k < 3; k++) { char* l = a + 16 + k * 64; snprintf(l, 40, "far-%u", n++); g_far.push_back(l); }
    stat_max("static_labels_placed_apart", n);
}
static void single(uint64_t seed, uint64_t cn) {
    Rng r(seed * 65537 + cn); Log g; g.ser = r.chance(60);
    HT_Timeline* t = ht_timeline_create(r.chance(20) ? 0 : r.below(2000), r.chance(50), g.ser, NULL, NULL);
    if (ht_feature_cached_string_enable(t, r.chance(50)) != HT_ERR_OK) { violation("enable-failed", "-"); return; }
    ht_timeline_register_listener(t, cb, &g);
    auto labels = make_labels(r, (unsigned)r.range(2, r.chance(10) ? 1500 : 60)); Oracle o; size_t seen = 0; unsigned fresh_n = 0, again = 0, maps = 0; unsigned ops = (unsigned)r.range(5, r.chance(10) ? 3000 : 150);
    Hash h; bool far = !g_far.empty() && r.chance(30); if (far) ops += 150;
    for (unsigned i = 0; i < ops && violation_count() < 5; i++) {
        if (r.chance(3)) {
            ht_timeline_flush(t); g.items.clear(); ht_feature_cached_string_push_map(t); ht_timeline_flush(t); maps++;
            std::map<uint64_t, unsigned> n; for (auto& it : g.items) { if (it.what != 'm') violation("foreign-event", "-"); n[it.id]++; auto f = o.id2label.find(it.id); if (f == o.id2label.end()) violation("map-unknown-identifier", "case %" PRIu64 ": %" PRIx64, cn, it.id); else if (f->second != it.label) violation("wrong-label", "case %" PRIu64 ": %" PRIx64 " re-published as '%s' instead of '%s'", cn, it.id, it.label.c_str(), f->second.c_str()); }
            for (auto& x : o.id2label) if (n[x.first] != 1) violation("map-incomplete", "case %" PRIu64 ": '%s' (%zu known) re-published %u times", cn, x.second.c_str(), o.id2label.size(), n[x.first]);
            g.items.clear(); seen = 0; continue;
        }
        bool dynamic = r.chance(60); uint64_t id; std::string text; const char* ptr = nullptr; 
        if (dynamic) { text = r.pick(labels); char* tmp = (char*)malloc(text.size() + 1); memcpy(tmp, text.c_str(), text.size() + 1); id = ht_feature_cached_string_add_mapping_dynamic(t, tmp); memset(tmp, 0x5A, text.size() + 1); free(tmp); }
        else { ptr = far && r.chance(60) ? r.pick(g_far) : g_static[r.below(r.chance(50) ? 20 : NSTATIC)]; text = ptr; id = ht_feature_cached_string_add_mapping(t, ptr); }
        bool fresh; o.returned(cn, dynamic, ptr, text, id, fresh); h.add(text); h.add(fresh);
        ht_timeline_flush(t);
        size_t nm = g.items.size() - seen;
        if (fresh) { fresh_n++; if (nm != 1 || g.items.back().what != 'm' || g.items.back().id != id || g.items.back().label != text) violation("mapping-missing-or-wrong", "case %" PRIu64 ": '%s' -> %" PRIx64 " came with %zu events%s", cn, text.c_str(), id, nm, nm ? (", last label '" + g.items.back().label + "'").c_str() : ""); }
        else { again++; if (nm != 0) violation("mapping-repeated", "case %" PRIu64 ": '%s' asked again came with %zu events", cn, text.c_str(), nm); }
        seen = g.items.size();
    }
    ht_timeline_destroy(t);
    if (fresh_n && again) sig(h.h);
    stat("cases"); stat("labels_mapped", fresh_n); stat("labels_asked_again", again); stat("maps_republished", maps);
    if (cn < 1) sample("single: labels=%u asked_again=%u republished=%u serialised=%d", fresh_n, again, maps, g.ser);
}
// Several timelines with one listener set: the reader of the common stream resolves every identifier through the last mapping before it.
static void shared(uint64_t seed, uint64_t cn) {
    Rng r(seed * 65551 + cn); Log g; g.ser = r.chance(60); std::string name = "shared-" + std::to_string(cn); unsigned nt = (unsigned)r.range(2, 5), ops = (unsigned)r.range(20, 200), reborn = 0, uses = 0;
    std::vector<HT_Timeline*> t(nt); bool reg = false;
    auto create = [&] { HT_Timeline* x = ht_timeline_create(r.chance(20) ? 0 : r.below(2000), HT_FALSE, g.ser, name.c_str(), NULL); ht_feature_cached_string_enable(x, HT_FALSE); if (!reg) { ht_timeline_register_listener(x, cb, &g); reg = true; } return x; };
    HT_Timeline* keep = create(); for (auto& x : t) x = create();
    auto labels = make_labels(r, (unsigned)r.range(2, 60)); std::vector<std::map<std::string, uint64_t>> known(nt);
    std::map<uint64_t, std::string> live; std::map<uint64_t, unsigned> refs; // identifiers in use by any timeline now
    for (unsigned i = 0; i < ops && violation_count() < 5; i++) {
        unsigned w = (unsigned)r.below(nt);
        if (r.chance(5)) { // a thread exits and another one starts
            ht_timeline_destroy(t[w]); for (auto& k : known[w]) if (!--refs[k.second]) live.erase(k.second);
            known[w].clear(); t[w] = create(); reborn++; continue;
        }
        uint64_t id; std::string text, key; bool dyn = r.chance(75);
        if (dyn) { text = r.pick(labels); std::string tmp = text; id = ht_feature_cached_string_add_mapping_dynamic(t[w], tmp.c_str()); std::fill(tmp.begin(), tmp.end(), 'Q'); }
        else { unsigned no = (unsigned)r.below(40); const char* ptr = g_static[no]; text = ptr; key = "s" + std::to_string(no); id = ht_feature_cached_string_add_mapping(t[w], ptr); }
        if (!id) { violation("no-identifier", "case %" PRIu64 " '%s'", cn, text.c_str()); break; }
        if (dyn) key = "d" + text;
        auto k = known[w].find(key);
        if (k != known[w].end()) { if (k->second != id) violation("identifier-changed", "case %" PRIu64 " '%s'", cn, text.c_str()); }
        else {
            known[w][key] = id; refs[id]++; auto l = live.find(id);
            if (l == live.end()) live[id] = text; else if (l->second != text) violation("identifier-shared", "case %" PRIu64 ": timelines with common listeners use %" PRIx64 " for '%s' and '%s'", cn, id, l->second.c_str(), text.c_str());
        }
        std::string hold = text; HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(t[w], HT_EVENT(&e)); e.src = w; e.seq = id; e.text = hold.c_str(); ht_timeline_push_event(t[w], HT_EVENT(&e)); uses++;
        if (!g.ser || r.chance(10)) ht_timeline_flush(t[w]); // the text of raw events must outlive them
        if (r.chance(5)) { ht_timeline_flush(t[w]); ht_feature_cached_string_push_map(t[w]); }
    }
    for (auto x : t) ht_timeline_destroy(x); ht_timeline_destroy(keep);
    std::map<uint64_t, std::string> map; unsigned resolved = 0; Hash h;
    for (auto& it : g.items) {
        h.add((uint64_t)it.what); h.add(it.label);
        if (it.what == 'm') map[it.id] = it.label;
        else if (it.what == 'u') { auto m = map.find(it.id); resolved++; if (m == map.end()) violation("used-before-mapped", "case %" PRIu64 ": '%s'", cn, it.label.c_str()); else if (m->second != it.label) violation("wrong-label", "case %" PRIu64 ": an event labelled '%s' resolves to '%s' (%u timelines share the listener)", cn, it.label.c_str(), m->second.c_str(), nt); }
    }
    if (!violated() && resolved != uses) violation("lost-event", "case %" PRIu64 ": %u of %u", cn, resolved, uses);
    if (resolved > 5) sig(h.h); stat("cases"); stat("resolved_in_shared_streams", resolved); stat("timelines_replaced", reborn);
    if (cn < 1) sample("shared: timelines=%u replaced=%u labels=%zu uses=%u", nt, reborn, labels.size(), uses);
}
static void conc(uint64_t seed, uint64_t cn) {
    Rng r(seed * 65539 + cn); Log g; g.ser = r.chance(60);
    HT_Timeline* t = ht_timeline_create(r.chance(20) ? 0 : r.below(2000), HT_TRUE, g.ser, NULL, NULL);
    ht_feature_cached_string_enable(t, HT_TRUE); ht_timeline_register_listener(t, cb, &g);
    auto labels = make_labels(r, (unsigned)r.range(2, 60)); unsigned nt = (unsigned)r.range(2, 6), ops = (unsigned)r.range(5, 60);
    hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(10, 200), r.next());
    struct Use { bool dyn; unsigned l; uint64_t id; }; std::vector<std::vector<Use>> uses(nt); std::vector<std::thread> th; std::atomic<unsigned> ready{0}; std::atomic<unsigned> maps{0};
    for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
        Rng q(seed * 31 + cn * 17 + i); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        for (unsigned k = 0; k < ops; k++) {
            if (q.chance(2)) { ht_feature_cached_string_push_map(t); maps.fetch_add(1, std::memory_order_relaxed); continue; }
            Use u; u.dyn = q.chance(70); const char* text;
            if (u.dyn) { u.l = (unsigned)q.below(labels.size()); text = labels[u.l].c_str(); std::string tmp = labels[u.l]; u.id = ht_feature_cached_string_add_mapping_dynamic(t, tmp.c_str()); std::fill(tmp.begin(), tmp.end(), 'Z'); }
            else { u.l = (unsigned)q.below(30); text = g_static[u.l]; u.id = ht_feature_cached_string_add_mapping(t, text); }
            uses[i].push_back(u);
            HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.src = i; e.seq = u.id; e.text = text; ht_timeline_push_event(t, HT_EVENT(&e));
        }
    });
    for (auto& x : th) x.join();
    hv_perturb_set(0, 0);
    ht_timeline_destroy(t);
    Oracle o; bool fr; for (auto& v : uses) for (auto& u : v) o.returned(cn, u.dyn, u.dyn ? nullptr : g_static[u.l], u.dyn ? labels[u.l] : std::string(g_static[u.l]), u.id, fr);
    std::map<uint64_t, unsigned> n; Hash h; unsigned used = 0;
    for (auto& it : g.items) {
        h.add((uint64_t)it.what);
        if (it.what == 'm') { n[it.id]++; h.add(it.label); auto f = o.id2label.find(it.id); if (f == o.id2label.end() || f->second != it.label) violation("wrong-label", "case %" PRIu64 ": mapping %" PRIx64 " -> '%s'", cn, it.id, it.label.c_str()); }
        else { used++; if (!n.count(it.id)) violation("used-before-mapped", "case %" PRIu64 ": identifier %" PRIx64 " ('%s') used before its mapping event (%u threads)", cn, it.id, it.label.c_str(), nt); if (o.id2label[it.id] != it.label) violation("identifier-shared", "case %" PRIu64 ": %" PRIx64 " used for '%s'", cn, it.id, it.label.c_str()); }
    }
    if (!maps.load()) for (auto& x : o.id2label) if (n[x.first] != 1) violation("mapping-missing-or-wrong", "case %" PRIu64 ": '%s' mapped %u times", cn, x.second.c_str(), n[x.first]);
    for (auto& x : n) if (x.second < 1 || x.second > 1 + maps.load()) violation("mapping-repeated", "case %" PRIu64 ": mapped %u times with %u re-publications", cn, x.second, maps.load());
    if (n.size() > 1 && used > nt) sig(h.h);
    stat("cases"); stat("concurrent_uses", used); stat("labels_mapped", n.size());
    if (cn < 1) sample("concurrent: threads=%u labels=%zu uses=%u", nt, n.size(), used);
}
static void inside(const char* label) { HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HvSeq, 0, 1, label); }
#define CPPS(N) case N: { HT_TP_G_STRACEPOINT("cpp-static-" #N); inside("cpp-static-" #N); break; }
static void cpp_static(int w) { switch (w) { CPPS(0) CPPS(1) CPPS(2) CPPS(3) CPPS(4) CPPS(5) default: { HT_G_TRACE_FUNCTION(); inside(__func__); } } }
static void global(uint64_t seed, uint64_t cn) {
    Rng r(seed * 131 + cn); unsigned nt = (unsigned)r.range(2, 6); std::vector<std::unique_ptr<Log>> logs;
    for (unsigned i = 0; i < nt; i++) { logs.emplace_back(new Log); logs.back()->ser = true; }
    HT_Timeline* reg = ht_timeline_create(100, HT_TRUE, HT_TRUE, "HT_GlobalTimeline", NULL); ht_timeline_register_listener(reg, cb_global, NULL);
    hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(10, 200), r.next());
    std::vector<std::thread> th; for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
        Rng q(seed * 7 + cn * 3 + i); t_log = logs[i].get();
        for (unsigned k = 0; k < 40; k++) switch (q.below(3)) {
            case 0: cpp_static((int)q.below(7)); break;
            case 1: hv_c_static((int)q.below(5), inside); break;
            default: { std::string s = "dyn-" + std::to_string(q.below(30)); std::string c = s; { HT_TP_G_DYN_STRACEPOINT(c.c_str()); std::fill(c.begin(), c.end(), '!'); inside(s.c_str()); } }
        }
    });
    for (auto& x : th) x.join();
    hv_perturb_set(0, 0);
    ht_timeline_unregister_all_listeners(reg); ht_timeline_destroy(reg);
    Hash h; unsigned uses = 0;
    for (auto& l : logs) {
        std::map<uint64_t, std::string> m; std::string last;
        for (auto& it : l->items) {
            if (it.what == 'm') { if (m.count(it.id)) violation("mapping-repeated", "case %" PRIu64 ": '%s' twice on one thread", cn, it.label.c_str()); m[it.id] = it.label; }
            else if (it.what == 'u') last = it.label;
            else { uses++; h.add(it.label); auto f = m.find(it.id); if (f == m.end()) violation("used-before-mapped", "case %" PRIu64 ": tracepoint '%s' has unmapped identifier %" PRIx64, cn, last.c_str(), it.id); else if (f->second != last) violation("wrong-label", "case %" PRIu64 ": tracepoint '%s' resolves to '%s'", cn, last.c_str(), f->second.c_str()); else h.add(f->second); }
        }
    }
    if (uses != nt * 40) violation("lost-event", "case %" PRIu64 ": %u scopes of %u", cn, uses, nt * 40);
    sig(h.h); stat("cases"); stat("tracepoints_resolved", uses);
}
int main(int argc, char** argv) {
    Args a(argc, argv); std::string mode = a.str("mode", "single");
    for (unsigned i = 0; i < NSTATIC; i++) snprintf(g_static[i], sizeof g_static[i], "st%u", i / 2); // two addresses per text
    ht_init(0, NULL); hv_register_all();
    if (mode == "single") place_far_labels();
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) { if (mode == "single") single(a.seed, cn); else if (mode == "shared") shared(a.seed, cn); else if (mode == "conc") conc(a.seed, cn); else global(a.seed, cn); }
    ht_deinit(); done(); return 0;
}
