// P02: concurrent pushes, flushes and registrations on thread-safe timelines.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
using namespace hv;

struct Case;
struct Got { uint32_t src; uint64_t seq; };
struct Listener { Case* c; bool late; std::vector<Got> got; };
struct Case {
    uint64_t no; bool ser; size_t cap;
    std::atomic<int> inside{0};
    std::vector<std::vector<std::string>> text; // [thread][seq]
    std::vector<std::unique_ptr<Listener>> ls;
};
static void take(Case& c, Listener* l, uint32_t src, uint64_t seq, const char* text, size_t n) {
    if (src >= c.text.size() || seq >= c.text[src].size()) { violation("foreign-event", "case %" PRIu64 ": src %u seq %" PRIu64, c.no, src, seq); return; }
    if (c.text[src][seq] != std::string(text, n)) violation("torn-event", "case %" PRIu64 ": src %u seq %" PRIu64 " text differs", c.no, src, seq);
    l->got.push_back({src, seq});
}
static void cb(TEventPtr ev, size_t size, HT_Boolean ser, void* ud) {
    Listener* l = (Listener*)ud; Case& c = *l->c;
    if (c.inside.fetch_add(1, std::memory_order_relaxed) != 0) violation("overlapping-delivery", "case %" PRIu64 ": two deliveries at once", c.no);
    hv_perturb_point();
    if ((ser != 0) != c.ser) violation("wrong-mode-flag", "case %" PRIu64, c.no);
    size_t pos = 0;
    while (pos < size) {
        if (c.ser) {
            uint32_t k, src; uint64_t seq;
            if (size - pos < 33) { violation("partial-event", "case %" PRIu64 ": %zu bytes left", c.no, size - pos); break; }
            memcpy(&k, ev + pos, 4); memcpy(&src, ev + pos + 20, 4); memcpy(&seq, ev + pos + 24, 8);
            if (k != HT_EVENT_KLASS_GET(HvSeq)->klass_id) { violation("torn-event", "case %" PRIu64 ": class id %u", c.no, k); break; }
            const char* t = (const char*)ev + pos + 32; const char* e = (const char*)memchr(t, 0, size - pos - 32);
            if (!e) { violation("partial-event", "case %" PRIu64 ": unterminated", c.no); break; }
            take(c, l, src, seq, t, e - t);
            pos += 33 + (e - t);
        } else {
            if (size - pos < sizeof(HvSeq)) { violation("partial-event", "case %" PRIu64 ": raw %zu bytes left", c.no, size - pos); break; }
            HvSeq s; memcpy(&s, ev + pos, sizeof s);
            if (((HT_Event*)&s)->klass != HT_EVENT_KLASS_GET(HvSeq)) { violation("torn-event", "case %" PRIu64 ": raw class pointer", c.no); break; }
            take(c, l, s.src, s.seq, s.text, strlen(s.text));
            pos += sizeof s;
        }
    }
    c.inside.fetch_sub(1, std::memory_order_relaxed);
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_init(0, NULL); hv_register_all();
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 999983 + cn);
        Case c; c.no = cn; c.ser = r.chance(60); c.cap = r.chance(20) ? 0 : r.chance(50) ? r.range(60, 400) : r.below(5000);
        unsigned nt = (unsigned)r.range(2, 7), per = (unsigned)r.range(5, 120);
        for (unsigned t = 0; t < nt; t++) { c.text.emplace_back(); for (unsigned i = 0; i < per; i++) c.text.back().push_back(random_text(r, r.chance(5) ? r.below(400) : r.below(20))); }
        HT_Timeline* t = ht_timeline_create(c.cap, HT_TRUE, c.ser, NULL, NULL);
        unsigned nl = (unsigned)r.range(1, 3), late = r.chance(60) ? (unsigned)r.range(1, 40) : 0;
        for (unsigned i = 0; i < nl + late; i++) { c.ls.emplace_back(new Listener); c.ls.back()->c = &c; c.ls.back()->late = i >= nl; }
        for (unsigned i = 0; i < nl; i++) ht_timeline_register_listener(t, cb, c.ls[i].get());
        hv_perturb_set(r.chance(25) ? 0 : (unsigned)r.range(20, 300), r.next());
        std::vector<std::thread> th; std::atomic<unsigned> ready{0}; unsigned extra = (late ? 1 : 0) + (r.chance(60) ? 1 : 0); bool flusher = extra > (late ? 1u : 0u);
        std::atomic<unsigned> left{nt};
        auto go = [&](unsigned n) { ready++; while (ready.load() < n) std::this_thread::yield(); };
        unsigned total = nt + extra;
        for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
            Rng q(a.seed * 31 + cn * 7 + i); go(total);
            for (unsigned k = 0; k < per; k++) {
                HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.src = i; e.seq = k; e.text = c.text[i][k].c_str();
                ht_timeline_push_event(t, HT_EVENT(&e));
                if (q.chance(3)) ht_timeline_flush(t);
            }
            left--;
        });
        if (flusher) th.emplace_back([&] { go(total); while (left.load()) { ht_timeline_flush(t); std::this_thread::yield(); } });
        if (late) th.emplace_back([&] { go(total); for (unsigned i = nl; i < nl + late; i++) { ht_timeline_register_listener(t, cb, c.ls[i].get()); std::this_thread::yield(); } });
        for (auto& x : th) x.join();
        hv_perturb_set(0, 0);
        ht_timeline_destroy(t);
        for (auto& l : c.ls) {
            std::vector<int64_t> next(nt, l->late ? -1 : 0);
            for (auto& g : l->got) {
                if (next[g.src] < 0) next[g.src] = (int64_t)g.seq;
                if ((int64_t)g.seq != next[g.src]) { violation((int64_t)g.seq < next[g.src] ? "duplicate-or-reordered" : "lost-event", "case %" PRIu64 " ser %d cap %zu: thread %u seq %" PRIu64 " expected %" PRId64, cn, c.ser, c.cap, g.src, g.seq, next[g.src]); break; }
                next[g.src]++;
            }
            for (unsigned i = 0; i < nt; i++) if (next[i] >= 0 && next[i] != (int64_t)per && !violated()) violation("lost-event", "case %" PRIu64 " ser %d cap %zu: thread %u delivered up to %" PRId64 " of %u", cn, c.ser, c.cap, i, next[i], per);
            stat("deliveries_checked", l->got.size());
        }
        Hash h; unsigned switches = 0; for (size_t i = 1; i < c.ls[0]->got.size(); i++) { h.add(c.ls[0]->got[i].src); switches += c.ls[0]->got[i].src != c.ls[0]->got[i - 1].src; }
        if (switches >= nt) sig(h.h);
        stat("cases"); stat("events", (uint64_t)nt * per); stat("thread_switches_observed", switches); stat("late_listeners", late);
        if (cn < 2) sample("threads=%u events_each=%u capacity=%zu serialised=%d listeners=%u late=%u switches_in_delivery_order=%u", nt, per, c.cap, c.ser, nl, late, switches);
    }
    ht_deinit(); done(); return 0;
}
