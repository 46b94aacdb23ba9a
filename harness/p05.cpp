// P05: global timeline used by many threads with arbitrary first uses and exits.
#include "hv_ev.hpp"
#include <pthread.h>
#include <hawktracer/init.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/timeline_listener.h>
#include <internal/global_timeline.h>
using namespace hv;

struct Got { uint8_t lst; uint32_t src; uint64_t seq; };
struct Log { std::vector<Got> got; std::vector<uint64_t> push_stamp; unsigned scopes = 0; std::vector<unsigned> scope_got; HT_Timeline* tl = nullptr; };
static thread_local Log* t_log; // the callbacks run on the tracing thread: no synchronisation added by the monitor
struct LateUse { unsigned thread = 0, n = 0; uint64_t seed = 0; };
static thread_local LateUse t_late;
static std::atomic<uint64_t> g_clock{1};
static uint64_t stamp() { return g_clock.fetch_add(1, std::memory_order_relaxed); }
struct Lst { uint8_t no; uint64_t reg = 0; bool early; };

static void cb(TEventPtr ev, size_t size, HT_Boolean ser, void* ud) {
    Lst* l = (Lst*)ud; Log* g = t_log;
    if (!g) { violation("foreign-thread", "delivery on a thread that traced nothing"); return; }
    if (!ser) { violation("wrong-mode-flag", "global timeline delivered unserialised events"); return; }
    size_t pos = 0;
    while (pos < size) {
        uint32_t k; if (size - pos < 20) { violation("partial-event", "%zu bytes left", size - pos); return; }
        memcpy(&k, ev + pos, 4);
        auto text = [&](size_t off) -> size_t { const void* e = size - pos > off ? memchr(ev + pos + off, 0, size - pos - off) : nullptr; if (!e) { violation("partial-event", "unterminated string"); return 0; } return (const uint8_t*)e - (ev + pos) + 1; };
        if (k == HT_EVENT_KLASS_GET(HvSeq)->klass_id) {
            Got x; x.lst = l->no; if (size - pos < 33) { violation("partial-event", "short"); return; }
            memcpy(&x.src, ev + pos + 20, 4); memcpy(&x.seq, ev + pos + 24, 8); g->got.push_back(x);
            size_t e = text(32); if (!e) return; pos += e;
        } else if (k == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id) {
            size_t e = text(32); if (!e) return;
            char want[64]; snprintf(want, sizeof want, "scope-%p", (void*)g);
            if (strcmp((const char*)ev + pos + 32, want)) violation("wrong-scope-label", "got %s", (const char*)ev + pos + 32);
            if (g->scope_got.size() <= l->no) g->scope_got.resize(l->no + 1); g->scope_got[l->no]++; pos += e;
        } else if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { size_t e = text(28); if (!e) return; pos += e; }
        else if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) pos += 40;
        else { violation("torn-event", "class id %u", k); return; }
    }
}
// Code that traces while its thread is being torn down: a destructor of a thread-local object, or of a thread-specific key.
// The library may have destroyed the thread's timeline already; then it says so, and tracing must do nothing.
static void trace_late(const char* where) {
    Rng q(t_late.seed); Log* g = t_log; if (!g) return;
    char lab[64]; snprintf(lab, sizeof lab, "scope-%p", (void*)g);
    for (unsigned k = 0; k < t_late.n; k++) {
        HT_Timeline* t = ht_global_timeline_get();
        stat(t ? "traced_during_thread_exit" : "ignored_during_thread_exit");
        if (t) g->push_stamp.push_back(stamp());
        unsigned seq = (unsigned)g->push_stamp.size() - 1;
        if (q.chance(40)) { HT_TP_GLOBAL_SCOPED_STRING(lab); if (t) g->scopes++; HT_TIMELINE_PUSH_EVENT(t, HvSeq, t_late.thread, seq, where); }
        else if (q.chance(40)) { HT_G_TRACE_FUNCTION();
            HT_TP_G_DYN_STRACEPOINT(where); HT_TIMELINE_PUSH_EVENT(t, HvSeq, t_late.thread, seq, where); }
        else { HT_DECL_EVENT(HvSeq, e); e.src = t_late.thread; e.seq = seq; e.text = where; ht_timeline_init_event(t, HT_EVENT(&e)); ht_timeline_push_event(t, HT_EVENT(&e)); }
        if (q.chance(20)) ht_timeline_flush(t);
    }
}
struct LateObject { int armed = 0; ~LateObject() { if (armed) trace_late("destructor"); } };
static void late_key(void* p) { if (p) trace_late("key"); }

int main(int argc, char** argv) {
    pthread_key_t key_before, key_after; pthread_key_create(&key_before, late_key);
    ht_init(0, NULL); ht_global_timeline_get(); ht_deinit();
    pthread_key_create(&key_after, late_key);
    Args a(argc, argv);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 777743 + cn);
        ht_init(0, NULL); hv_register_all();
        if (r.chance(70)) ht_global_timeline_set_buffer_size(r.chance(10) ? 0 : r.range(40, 3000));
        unsigned nt = (unsigned)r.range(2, 8), nl = (unsigned)r.range(1, 3), nlate = r.chance(60) ? (unsigned)r.range(1, 20) : 0;
        bool reg_first = r.chance(50);
        std::vector<std::unique_ptr<Lst>> ls; for (unsigned i = 0; i < nl + nlate; i++) { ls.emplace_back(new Lst); ls.back()->no = (uint8_t)i; ls.back()->early = i < nl; }
        std::vector<std::unique_ptr<Log>> logs; for (unsigned i = 0; i < nt; i++) logs.emplace_back(new Log);
        hv_perturb_set(r.chance(20) ? 0 : (unsigned)r.range(10, 200), r.next());
        std::atomic<unsigned> ready{0}, gone{0}; std::atomic<bool> registered{false};
        std::atomic<uint64_t> pushed{0};
        std::vector<std::atomic<HT_Timeline*>> alive(nt); for (auto& x : alive) x.store(nullptr);
        std::atomic<bool> stop{false};
        std::vector<unsigned> per(nt); for (auto& p : per) p = (unsigned)r.below(r.chance(30) ? 3 : 80);
        std::vector<unsigned> lag(nt); for (auto& p : lag) p = r.chance(50) ? 0 : (unsigned)r.below(400);
        std::vector<std::thread> th;
        std::vector<unsigned> late(nt); for (auto& p : late) p = r.chance(60) ? 0 : (unsigned)r.range(1, 7);
        for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
            Rng q(a.seed * 13 + cn * 101 + i); Log& g = *logs[i]; t_log = &g;
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            if (reg_first && i != 0) while (!registered.load(std::memory_order_relaxed)) std::this_thread::yield();
            if (lag[i]) { struct timespec ts = {0, (long)lag[i] * 1000}; nanosleep(&ts, 0); }
            t_late.thread = i; t_late.seed = q.next(); t_late.n = (unsigned)q.range(1, 5);
            if (late[i] & 1) { static thread_local LateObject before; before.armed = 1; } // destroyed after the timeline
            HT_Timeline* mine = ht_global_timeline_get(); g.tl = mine;
            if (late[i] & 2) pthread_setspecific(key_before, &g);
            if (late[i] & 4) pthread_setspecific(key_after, &g);
            if (!mine) { violation("no-timeline", "case %" PRIu64, cn); return; }
            alive[i].store(mine, std::memory_order_relaxed);
            for (unsigned o = 0; o < nt; o++) if (o != i && alive[o].load(std::memory_order_relaxed) == mine) violation("shared-timeline", "case %" PRIu64 ": threads %u and %u have one timeline while both live", cn, i, o);
            if (i == 0) { for (unsigned l = 0; l < nl; l++) { ht_timeline_register_listener(mine, cb, ls[l].get()); ls[l]->reg = stamp(); } registered.store(true, std::memory_order_relaxed); }
            else while (!registered.load(std::memory_order_relaxed)) std::this_thread::yield();
            unsigned late_from = nl + (nlate * i) / nt, late_to = nl + (nlate * (i + 1)) / nt;
            char lab[64]; snprintf(lab, sizeof lab, "scope-%p", (void*)&g); std::string txt;
            for (unsigned k = 0; k < per[i]; k++) {
                if (late_from < late_to && q.chance(20)) { ht_timeline_register_listener(ht_global_timeline_get(), cb, ls[late_from].get()); ls[late_from]->reg = stamp(); late_from++; }
                HT_Timeline* t = ht_global_timeline_get();
                if (t != mine) violation("timeline-changed", "case %" PRIu64 ": thread %u", cn, i);
                txt.assign(q.below(q.chance(5) ? 300 : 30), 'a' + k % 26);
                g.push_stamp.push_back(stamp());
                if (q.chance(30)) { HT_TP_GLOBAL_SCOPED_STRING(lab); g.scopes++; HT_TIMELINE_PUSH_EVENT(t, HvSeq, i, k, txt.c_str()); }
                else if (q.chance(20)) { HT_TP_G_DYN_STRACEPOINT(txt.c_str()); HT_TIMELINE_PUSH_EVENT(t, HvSeq, i, k, txt.c_str()); }
                else HT_TIMELINE_PUSH_EVENT(t, HvSeq, i, k, txt.c_str());
                if (q.chance(4)) {
                    ht_timeline_flush(t);
                    size_t n = 0; for (auto& x : g.got) n += x.lst == 0;
                    if (n != k + 1) violation("lost-after-flush", "case %" PRIu64 ": thread %u has pushed %u, listener 0 got %zu after flush", cn, i, k + 1, n);
                }
            }
            alive[i].store(nullptr, std::memory_order_relaxed);
        });
        for (auto& x : th) x.join();
        hv_perturb_set(0, 0);
        for (unsigned i = 0; i < nt; i++) {
            Log& g = *logs[i];
            for (auto& l : ls) {
                if (!l->reg) continue;
                uint64_t first_needed = 0; while (first_needed < g.push_stamp.size() && g.push_stamp[first_needed] < l->reg) first_needed++;
                if (l->early && reg_first && first_needed) violation("monitor", "early listener registered late");
                uint64_t next = ~0ull; uint64_t cnt = 0;
                for (auto& x : g.got) if (x.lst == l->no) {
                    cnt++;
                    if (x.src != i) { violation("foreign-event", "case %" PRIu64 ": event of thread %u delivered from thread %u's timeline", cn, x.src, i); break; }
                    if (next == ~0ull) { if (x.seq > first_needed) violation("lost-event", "case %" PRIu64 ": thread %u starts at %" PRIu64 ", listener was registered before push %" PRIu64, cn, i, x.seq, first_needed); }
                    else if (x.seq != next) { violation(x.seq < next ? "duplicate-or-reordered" : "lost-event", "case %" PRIu64 ": thread %u seq %" PRIu64 " expected %" PRIu64, cn, i, x.seq, next); break; }
                    next = x.seq + 1;
                }
                if (first_needed < g.push_stamp.size() && next != g.push_stamp.size() && !violated()) violation("lost-event", "case %" PRIu64 ": thread %u exited after %zu events, delivered up to %" PRId64, cn, i, g.push_stamp.size(), (int64_t)next);
                if (l->early && reg_first && !violated()) {
                    unsigned sg = l->no < g.scope_got.size() ? g.scope_got[l->no] : 0;
                    if (sg != g.scopes) violation("lost-scope", "case %" PRIu64 ": thread %u closed %u scopes, listener saw %u", cn, i, g.scopes, sg);
                }
                stat("deliveries_checked", cnt);
            }
        }
        Hash h; std::vector<std::pair<uint64_t, unsigned>> order; for (unsigned i = 0; i < nt; i++) for (auto s : logs[i]->push_stamp) order.push_back({s, i});
        std::sort(order.begin(), order.end()); unsigned sw = 0; for (size_t i = 0; i < order.size(); i++) { h.add(order[i].second); sw += i && order[i].second != order[i - 1].second; }
        if (sw > nt) sig(h.h);
        stat("cases"); stat("threads", nt); stat("events", order.size()); stat("push_interleavings_switches", sw);
        if (cn < 2) sample("threads=%u listeners=%u late=%u registered_first=%d switches=%u buffer=%zu", nt, nl, nlate, reg_first, sw, ht_global_timeline_get_buffer_size());
        ht_deinit();
    }
    done(); return 0;
}
