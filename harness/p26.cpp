// P26: ownership of listeners and features, against a reference model.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/alloc.h>
#include <hawktracer/feature.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/registry.h>
#include <hawktracer/timeline_listener.h>
using namespace hv;

struct World; struct Box;
struct Lst { unsigned no; bool has_destroy; unsigned regs = 0, destroyed = 0, cleared = 0; World* w; char* guard; std::vector<std::pair<uint32_t, uint64_t>> got, want; Box* unreg_box = nullptr; HT_Timeline* unreg_tl = nullptr; };
struct Box { std::string name; std::vector<Lst*> entries; int timelines = 0; bool registry = false; bool gone = false; };
struct Tl { HT_Timeline* t; Box* box; uint32_t no; bool ser; std::vector<uint64_t> pending; std::map<int, void*> feats; };
// ---- features: many classes
static const int NF = 70;
static HT_FeatureKlass fk[NF];
struct Feat { HT_Feature base; int klass; unsigned no; };
static std::map<unsigned, unsigned> g_feat_destroyed; // by feature number
static unsigned g_next_feat = 0; static std::mutex g_feat_m;
static void feat_destroy(HT_Feature* f) { { std::lock_guard<std::mutex> l(g_feat_m); g_feat_destroyed[((Feat*)f)->no]++; } ht_free(f); }

struct World { std::string hist; uint64_t cn; };
static void take(Lst* l, TEventPtr ev, size_t size, HT_Boolean ser) {
    if (l->destroyed >= l->regs) violation("delivery-after-destroy", "case %" PRIu64 " (%s): listener %u", l->w->cn, l->w->hist.c_str(), l->no);
    l->guard[0]++;
    size_t pos = 0;
    while (pos < size) {
        if (ser) {
            uint32_t s; uint64_t q; memcpy(&s, ev + pos + 20, 4); memcpy(&q, ev + pos + 24, 8); l->got.push_back({s, q});
            pos += 32 + strlen((const char*)ev + pos + 32) + 1;
        } else { HvSeq e; memcpy(&e, ev + pos, sizeof e); l->got.push_back({e.src, e.seq}); pos += sizeof e; }
    }
}
static void cb(TEventPtr ev, size_t size, HT_Boolean ser, void* ud) { take((Lst*)ud, ev, size, ser); }
static void destroy(void* ud) {
    Lst* l = (Lst*)ud; l->destroyed++;
    if (l->destroyed > l->regs) violation("destroyed-twice", "case %" PRIu64 " (%s): listener %u destroyed %u times for %u registrations", l->w->cn, l->w->hist.c_str(), l->no, l->destroyed, l->regs);
    if (l->destroyed == l->regs) { free(l->guard); l->guard = nullptr; }
}
struct Case {
    World w; Rng r; std::vector<std::unique_ptr<Box>> boxes; std::vector<std::unique_ptr<Tl>> tls; std::vector<std::unique_ptr<Lst>> ls; bool inited = false; Hash h; unsigned maxshare = 0; uint32_t ntl = 0; uint64_t seq = 0;
    std::vector<std::string> names; std::map<unsigned, unsigned> feat_want; unsigned feat_from;
    Case(uint64_t seed, uint64_t cn) : r(seed * 1000003 + cn) {
        w.cn = cn; names = {"a", "b", "", "name", "name ", std::string(300, 'n'), std::string(299, 'n'), random_text(r, r.range(1, 20))};
        if (r.chance(30)) { names.push_back("Ez"); names.push_back("FY"); names.push_back("xEz"); names.push_back("xFY"); } // equal djb2 hashes
        feat_from = g_next_feat;
    }
    void op(char c) { h.add((uint64_t)c); if (w.hist.size() < 250) w.hist += c; }
    void bad(const char* k, const std::string& s) { violation(k, "case %" PRIu64 " (%s): %s", w.cn, w.hist.c_str(), s.c_str()); }
    void check() {
        for (auto& l : ls) {
            if (l->destroyed != l->cleared) { bad("destroy-count", "listener " + std::to_string(l->no) + " destroyed " + std::to_string(l->destroyed) + " times, expected " + std::to_string(l->cleared)); l->cleared = l->destroyed; }
            if (l->got != l->want) { bad("wrong-delivery", "listener " + std::to_string(l->no) + " got " + std::to_string(l->got.size()) + " events, expected " + std::to_string(l->want.size())); l->want = l->got; }
        }
        std::lock_guard<std::mutex> g(g_feat_m);
        for (unsigned i = feat_from; i < g_next_feat; i++) if (g_feat_destroyed[i] != feat_want[i]) { bad("feature-destroy-count", "feature " + std::to_string(i - feat_from) + " destroyed " + std::to_string(g_feat_destroyed[i]) + " times, expected " + std::to_string(feat_want[i])); feat_want[i] = g_feat_destroyed[i]; }
    }
    void flushed(Tl& t) { for (auto q : t.pending) (void)q; for (Lst* l : t.box->entries) for (auto q : t.pending) l->want.push_back({t.no, q}); t.pending.clear(); }
    void clear(Box& b) { for (Lst* l : b.entries) if (l->has_destroy) l->cleared++; b.entries.clear(); }
    void release(Box& b) { if (!b.timelines && !b.registry && !b.gone) { clear(b); b.gone = true; } }
    void create() {
        std::unique_ptr<Tl> t(new Tl); bool named = r.chance(75); const std::string& n = names[r.below(names.size())];
        t->ser = r.chance(60); size_t cap = 1 << 15;
        t->t = ht_timeline_create(cap, r.chance(50), t->ser, named ? n.c_str() : nullptr, nullptr);
        if (!t->t) { bad("no-timeline", n); return; }
        Box* b = nullptr; if (named) for (auto& x : boxes) if (x->registry && x->name == n) b = x.get();
        if (!b) { boxes.emplace_back(new Box); b = boxes.back().get(); b->name = n; b->registry = named; }
        b->timelines++; t->box = b; t->no = ntl++; maxshare = std::max(maxshare, (unsigned)b->timelines); tls.push_back(std::move(t)); op('t');
    }
    void listen(Tl& t) {
        Lst* l;
        std::vector<Lst*> alive; for (auto& x : ls) if (x->regs && (x->destroyed < x->regs) && x->has_destroy) alive.push_back(x.get());
        bool again = !alive.empty() && r.chance(15);
        if (again) l = alive[r.below(alive.size())];
        else { ls.emplace_back(new Lst); l = ls.back().get(); l->no = (unsigned)ls.size(); l->w = &w; l->guard = (char*)calloc(1, 1); l->has_destroy = r.chance(85); }
        l->regs++;
        HT_ErrorCode e = l->has_destroy ? ht_timeline_register_listener_full(t.t, cb, l, destroy) : r.chance(50) ? ht_timeline_register_listener(t.t, cb, l) : ht_timeline_register_listener_full(t.t, cb, l, nullptr);
        if (e != HT_ERR_OK) { bad("register-failed", std::to_string((int)e)); l->regs--; return; }
        t.box->entries.push_back(l); op(again ? 'L' : 'l'); stat("registrations");
    }
    void feature(Tl& t) {
        int k = r.chance(20) ? (int)r.below(NF) : (int)r.below(5); Feat* f = (Feat*)ht_alloc(sizeof(Feat));
        f->base.klass = &fk[k]; f->klass = k; { std::lock_guard<std::mutex> g(g_feat_m); f->no = g_next_feat++; }
        bool registered = fk[k].id != HT_INVALID_FEATURE_ID, there = t.feats.count(k);
        unsigned no = f->no;
        HT_ErrorCode e = ht_timeline_set_feature(t.t, &f->base), want = !registered ? HT_ERR_FEATURE_NOT_REGISTERED : there ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK;
        if (e != want) bad("feature-result", "set_feature gave " + std::to_string((int)e) + ", expected " + std::to_string((int)want));
        if (want == HT_ERR_OK) t.feats[k] = f; else { feat_want[no]++; stat("features_refused"); }
        HT_Feature* g = ht_timeline_get_feature(t.t, &fk[k]);
        if (g != (HT_Feature*)(t.feats.count(k) ? t.feats[k] : nullptr)) bad("feature-lookup", "class " + std::to_string(k));
        op('F'); stat("features");
    }
    void destroy_tl(size_t i) {
        std::unique_ptr<Tl> t = std::move(tls[i]); tls.erase(tls.begin() + (long)i);
        flushed(*t); for (auto& f : t->feats) feat_want[((Feat*)f.second)->no]++;
        t->box->timelines--; ht_timeline_destroy(t->t); release(*t->box); op('x'); check();
    }
    void run() {
        ht_init(0, nullptr); hv_register_all(); inited = true;
        unsigned ops = (unsigned)r.range(5, 120);
        for (unsigned i = 0; i < ops && violation_count() < 5; i++) {
            unsigned k = (unsigned)r.below(100);
            if (tls.empty() || k < 14) { create(); continue; }
            Tl& t = *tls[r.below(tls.size())];
            if (k < 32) { listen(t); if (r.chance(5)) for (int j = 0; j < 40; j++) listen(t); }
            else if (k < 60) { if (t.pending.size() < 300) { HT_TIMELINE_PUSH_EVENT(t.t, HvSeq, t.no, seq, "x"); t.pending.push_back(seq++); op('p'); stat("events"); } }
            else if (k < 70) { flushed(t); ht_timeline_flush(t.t); op('f'); check(); }
            else if (k < 78) { clear(*t.box); ht_timeline_unregister_all_listeners(t.t); op('u'); check(); }
            else if (k < 88) { feature(t); check(); }
            else destroy_tl(r.below(tls.size()));
        }
        bool shut = r.chance(50);
        while (!tls.empty() && violation_count() < 5) { if (shut && r.chance(40)) { shut = false; down(); } destroy_tl(r.below(tls.size())); }
        if (inited) down();
        for (auto& l : ls) if (l->guard) free(l->guard);
        for (auto& l : ls) if (l->has_destroy && l->destroyed != l->regs && !violated()) bad("never-destroyed", "listener " + std::to_string(l->no) + ": " + std::to_string(l->destroyed) + " of " + std::to_string(l->regs));
        stat_max("max_timelines_sharing", maxshare); if (maxshare > 1) sig(h.h);
        if (w.cn < 3) sample("%s", w.hist.c_str());
    }
    void down() { inited = false; for (auto& b : boxes) if (b->registry) { b->registry = false; release(*b); } ht_deinit(); op('D'); check(); if (!tls.empty()) stat("shutdowns_with_live_timelines"); }
};
// ---- several threads creating, using and destroying timelines that share sets
struct CL { std::atomic<unsigned> destroyed{0}; std::atomic<uint64_t> got{0}; std::mutex m; std::map<uint32_t, uint64_t> last; unsigned regs = 1; uint64_t cn; char* guard; };
static void ccb(TEventPtr ev, size_t size, HT_Boolean, void* ud) {
    CL* l = (CL*)ud; std::lock_guard<std::mutex> g(l->m);
    if (l->destroyed.load()) { violation("delivery-after-destroy", "concurrent case %" PRIu64, l->cn); return; }
    l->guard[0]++;
    for (size_t pos = 0; pos < size;) { uint32_t s; uint64_t q; memcpy(&s, ev + pos + 20, 4); memcpy(&q, ev + pos + 24, 8); auto it = l->last.find(s); if (it != l->last.end() && q != it->second + 1) violation("wrong-delivery", "concurrent case %" PRIu64 ": source %u: %" PRIu64 " after %" PRIu64, l->cn, s, q, it->second); l->last[s] = q; l->got++; pos += 32 + strlen((const char*)ev + pos + 32) + 1; }
}
static void cdestroy(void* ud) { CL* l = (CL*)ud; std::lock_guard<std::mutex> g(l->m); if (l->destroyed++) violation("destroyed-twice", "concurrent case %" PRIu64, l->cn); else free(l->guard); }
static void concurrent(uint64_t seed, uint64_t cn) {
    Rng r(seed * 77003 + cn); ht_init(0, nullptr); hv_register_all();
    unsigned nt = (unsigned)r.range(2, 6), rounds = (unsigned)r.range(1, 6), nnames = (unsigned)r.range(1, 3);
    std::vector<std::vector<std::unique_ptr<CL>>> lst(nt); std::atomic<unsigned> go{0}; std::vector<std::thread> th; std::atomic<bool> ended{false};
    struct Seen { std::string name; uint32_t src; uint64_t pushed; uint64_t at_reg; CL* l; }; std::vector<std::vector<Seen>> seen(nt);
    hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(5, 100), r.next());
    std::vector<std::vector<std::pair<std::string, std::pair<uint32_t, uint64_t>>>> pushes(nt);
    std::vector<std::unique_ptr<CL>> firsts; std::map<std::string, CL*> first_of;
    std::vector<HT_Timeline*> keep;
    if (r.chance(50)) for (unsigned i = 0; i < nnames; i++) { // a listener that is there from the start has to get everything
        std::string n = "set" + std::to_string(i); HT_Timeline* t = ht_timeline_create(100, HT_FALSE, HT_TRUE, n.c_str(), nullptr);
        firsts.emplace_back(new CL); CL* l = firsts.back().get(); l->cn = cn; l->guard = (char*)calloc(1, 1); ht_timeline_register_listener_full(t, ccb, l, cdestroy); first_of[n] = l;
        if (r.chance(50)) ht_timeline_destroy(t); else keep.push_back(t);
    }
    for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
        Rng q(seed * 31 + cn * 17 + i); go++; while (go.load() < nt) std::this_thread::yield();
        for (unsigned k = 0; k < rounds; k++) {
            std::string n = "set" + std::to_string(q.below(nnames)); uint32_t src = i * 1000 + k;
            HT_Timeline* t = ht_timeline_create(q.range(64, 400), q.chance(50), HT_TRUE, n.c_str(), nullptr);
            if (!t) { violation("no-timeline", "concurrent case %" PRIu64, cn); return; }
            if (q.chance(30)) ht_feature_callstack_enable(t);
            CL* l = nullptr; uint64_t at = 0, cnt = q.below(30), reg_at = q.below(cnt + 1);
            for (uint64_t e = 0; e <= cnt; e++) {
                if (e == reg_at && q.chance(60)) { lst[i].emplace_back(new CL); l = lst[i].back().get(); l->cn = cn; l->guard = (char*)calloc(1, 1); if (ht_timeline_register_listener_full(t, ccb, l, cdestroy) != HT_ERR_OK) violation("register-failed", "concurrent"); at = e; }
                if (e < cnt) HT_TIMELINE_PUSH_EVENT(t, HvSeq, src, e, "y");
            }
            ht_timeline_destroy(t);
            pushes[i].push_back({n, {src, cnt}});
            if (l) { std::lock_guard<std::mutex> g(l->m); auto it = l->last.find(src); if (cnt > at && (it == l->last.end() || it->second != cnt - 1)) violation("lost-at-destroy", "concurrent case %" PRIu64 ": source %u pushed %" PRIu64 ", its listener (from %" PRIu64 ") got up to %" PRId64, cn, src, cnt, at, it == l->last.end() ? (int64_t)-1 : (int64_t)it->second); if (l->destroyed.load()) violation("destroyed-early", "concurrent case %" PRIu64, cn); }
        }
    });
    for (auto& t : th) t.join();
    hv_perturb_set(0, 0);
    for (auto& p : pushes) for (auto& x : p) { stat("concurrent_timelines"); auto f = first_of.find(x.first); if (f == first_of.end()) continue; auto it = f->second->last.find(x.second.first); uint64_t got = it == f->second->last.end() ? 0 : it->second + 1; if (got != x.second.second) violation("set-not-shared", "concurrent case %" PRIu64 ": source %u of %s pushed %" PRIu64 ", the first listener of the set got %" PRIu64, cn, x.second.first, x.first.c_str(), x.second.second, got); }
    for (auto t : keep) ht_timeline_destroy(t);
    ht_deinit();
    for (auto& v : lst) for (auto& l : v) if (l->destroyed != 1) violation("never-destroyed", "concurrent case %" PRIu64 ": %u times", cn, l->destroyed.load());
    for (auto& l : firsts) if (l->destroyed != 1) violation("never-destroyed", "concurrent case %" PRIu64 ": first listener %u times", cn, l->destroyed.load());
    Hash h; h.add(cn); h.add(seed); sig(h.h); stat("concurrent_cases");
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    for (auto& k : fk) { k.destroy = feat_destroy; k.id = HT_INVALID_FEATURE_ID; }
    if (a.str("mode") == "threads") { for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) concurrent(a.seed, cn); done(); return 0; }
    ht_init(0, nullptr); Rng r(a.seed);
    unsigned ok = 0; // class 4 is never registered; the others until there is no room
    for (int i = 0; i < NF; i++) if (i != 4) { HT_ErrorCode e = ht_registry_register_feature(&fk[i]); if (e == HT_ERR_OK) { ok++; if (ht_registry_register_feature(&fk[i]) != HT_ERR_FEATURE_ALREADY_REGISTERED) violation("feature-result", "registered twice"); } else { if (e != HT_ERR_MAX_FEATURE_COUNT_REACHED) violation("feature-result", "register gave %d", (int)e); stat("classes_refused"); } }
    { std::set<uint32_t> ids; for (auto& k : fk) if (k.id != HT_INVALID_FEATURE_ID && !ids.insert(k.id).second) violation("feature-id-shared", "%u", k.id); }
    stat("classes_registered", ok);
    ht_deinit();
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) { Case c(a.seed, cn); c.run(); stat("cases"); }
    done(); return 0;
}
