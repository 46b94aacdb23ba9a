// P05: what the process traces on its way out. usage: p05_exit seed=N
// One process is one case: the main thread and static destructors / exit handlers trace through the global timeline, on either
// side of the point where the library destroys that timeline; a destructor that runs after everything else judges the deliveries.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/timeline_listener.h>
#include <internal/global_timeline.h>
using namespace hv;

static uint64_t g_seed;
static unsigned pushed, got, dropped, destroyed, bad, exits;
static bool listening, deinit_done;
static HT_Timeline* own;

static void cb(TEventPtr ev, size_t size, HT_Boolean, void*) {
    for (size_t pos = 0; pos < size;) {
        uint32_t k; memcpy(&k, ev + pos, 4);
        const void* e;
        if (destroyed) violation("delivery-after-destroy", "a listener was called after its destruction");
        if (k == HT_EVENT_KLASS_GET(HvSeq)->klass_id) {
            uint64_t seq; memcpy(&seq, ev + pos + 24, 8);
            if (seq != got && bad++ < 3) violation("lost-at-exit", "delivered event %" PRIu64 ", expected %u", seq, got);
            got = (unsigned)seq + 1; e = memchr(ev + pos + 32, 0, size - pos - 32);
        } else if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { pos += 40; continue; }
        else if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) e = memchr(ev + pos + 28, 0, size - pos - 28);
        else { violation("torn-event", "class %u", k); return; }
        if (!e) { violation("torn-event", "string"); return; }
        pos = (const uint8_t*)e - ev + 1;
    }
}
static void closed(void*) { destroyed++; }
static void trace(Rng& q, unsigned n, const char* where) {
    for (unsigned k = 0; k < n; k++) {
        HT_Timeline* t = ht_global_timeline_get();
        if (t && listening && deinit_done && t != own) listening = false; // a new timeline after the shut-down: a new set of listeners
        unsigned seq = pushed;
        if (t && !listening) seq = 1u << 30;
        if (t && listening) pushed++; else if (!t) dropped++;
        if (q.chance(30)) { HT_TP_G_DYN_STRACEPOINT(where);
            HT_TIMELINE_PUSH_EVENT(t, HvSeq, 1, seq, where); }
        else if (q.chance(30)) { HT_G_TRACE_FUNCTION();
            HT_TIMELINE_PUSH_EVENT(t, HvSeq, 1, seq, where); }
        else HT_TIMELINE_PUSH_EVENT(t, HvSeq, 1, seq, where);
        if (q.chance(15)) ht_timeline_flush(t);
    }
}
struct Judge {
    Judge() { Report::get(); }
    ~Judge() {
        if (got != pushed) violation("lost-at-exit", "%u events were traced on the exiting thread with a timeline, %u delivered", pushed, got);
        if (destroyed > 1) violation("destroyed-twice", "listener destroyed %u times", destroyed);
        stat("exits"); stat("traced_in_exiting_process", pushed); stat("ignored_in_exiting_process", dropped); stat("exit_handlers_tracing", exits);
        if (pushed > 3 && exits) sig(Rng::mix(g_seed));
        done();
    }
};
struct Early { uint64_t salt; int on = 0; ~Early() { if (on) { exits++; Rng q(g_seed + salt); trace(q, (unsigned)q.range(1, 5), "static"); } } };
static Judge g_judge;
static Early g_early{1};                                  // destroyed after the main thread's timeline
static thread_local Early g_early_tls{2};
static void handler1() { exits++; Rng q(g_seed + 3); trace(q, (unsigned)q.range(1, 5), "handler"); }
static void handler2() { exits++; Rng q(g_seed + 4); trace(q, (unsigned)q.range(1, 5), "handler"); }

int main(int argc, char** argv) {
    Args a(argc, argv);
    g_seed = a.seed; Rng r(g_seed);
    if (r.chance(50)) atexit(handler1);
    ht_init(0, NULL); hv_register_all();
    if (r.chance(60)) ht_global_timeline_set_buffer_size(r.chance(20) ? 0 : r.range(40, 4000));
    g_early.on = r.chance(60);
    if (r.chance(50)) g_early_tls.on = 1;                 // constructed before the timeline, so destroyed after it
    int kind = (int)r.below(3);                           // the exiting thread: main returns, main calls exit, another thread calls exit
    auto body = [&] {
        if (r.chance(85)) {
            ht_timeline_register_listener_full(ht_global_timeline_get(), cb, NULL, closed); listening = true;
            own = ht_global_timeline_get();
            trace(r, (unsigned)r.below(40), "body");
        }
        if (r.chance(50)) atexit(handler2);
        ht_global_timeline_get();                         // tracing for the first time after the shut-down is not claimed
        if (r.chance(50)) ht_deinit(), deinit_done = true;
        if (kind) exit(0);
    };
    if (kind == 2) { std::thread t(body); t.join(); }
    else body();
    return 0;
}
