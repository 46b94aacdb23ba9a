// P07: call-stack tracepoints against a shadow stack, on a virtual clock.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/thread.h>
#include <hawktracer/timeline.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/scoped_tracepoint.h>
#include <hawktracer/global_timeline.h>
using namespace hv;
static std::atomic<uint64_t> g_now{1000};
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now.load(std::memory_order_relaxed); }
extern "C" void hv_c_scopes(int depth, HT_Timeline* t, void (*enter)(const char*, uint64_t, int), void (*leave)(void));

struct Open { HT_EventKlass* k; uint64_t ts; Bytes payload; }; // payload: bytes after the callstack base part
struct Case {
    uint64_t no; bool ser; HT_Timeline* tl; Rng r; std::vector<Open> stack; std::vector<Bytes> expect; size_t got = 0; std::vector<std::string*> keep; size_t maxd = 0; Hash h; uint64_t closes = 0;
    Case(uint64_t s) : r(s) {}
};
static Case* C;
// Canonical bytes of an event without its id: class id, timestamp, rest
static Bytes strip(const Bytes& w) { Bytes b(w.begin(), w.begin() + 12); b.insert(b.end(), w.begin() + 20, w.end()); return b; }
static void match(const Bytes& got) {
    if (C->got >= C->expect.size()) { violation("extra-event", "case %" PRIu64 ": %s", C->no, hex(got.data(), got.size()).c_str()); return; }
    if (got != C->expect[C->got]) violation("wrong-event", "case %" PRIu64 " event %zu of %zu (depth %zu, %s): got %s expected %s", C->no, C->got, C->expect.size(), C->stack.size(), C->ser ? "serialised" : "raw", hex(got.data(), got.size(), 200).c_str(), hex(C->expect[C->got].data(), C->expect[C->got].size(), 200).c_str());
    C->got++;
}
static void cb(TEventPtr ev, size_t size, HT_Boolean ser, void*) {
    size_t pos = 0;
    while (pos < size && violation_count() < 5) {
        if (ser) { // expected length tells where the event must end
            if (C->got >= C->expect.size()) { violation("extra-event", "case %" PRIu64 ": %zu bytes", C->no, size - pos); return; }
            size_t n = C->expect[C->got].size() + 8;
            if (size - pos < n) { violation("wrong-event", "case %" PRIu64 " event %zu: %zu bytes delivered, %zu expected", C->no, C->got, size - pos, n); return; }
            match(strip(Bytes(ev + pos, ev + pos + n))); pos += n;
        } else {
            HT_Event* e = (HT_Event*)(ev + pos); Bytes w; alignas(16) uint8_t tmp[512]; size_t n = struct_size(e); if (!n || n > size - pos) { violation("torn-event", "case %" PRIu64, C->no); return; }
            memcpy(tmp, e, n); oracle_serialize((HT_Event*)tmp, w); match(strip(w)); pos += n;
        }
    }
}
static const char* keep(std::string s) { C->keep.push_back(new std::string(std::move(s))); return C->keep.back()->c_str(); }
static void opened(HT_EventKlass* k, const Bytes& payload) { C->stack.push_back({k, g_now.load(), payload}); C->maxd = std::max(C->maxd, C->stack.size()); C->h.add(payload.size()); }
static void expect_close() {
    Open o = C->stack.back(); C->stack.pop_back();
    Bytes b; put<uint32_t>(b, o.k->klass_id); put<uint64_t>(b, o.ts); put<uint64_t>(b, g_now.load() - o.ts); put<uint32_t>(b, ht_thread_get_current_thread_id());
    b.insert(b.end(), o.payload.begin(), o.payload.end()); C->expect.push_back(b); C->closes++;
}
static void tick() { if (C->r.chance(70)) g_now += C->r.chance(3) ? C->r.below(1ull << 40) : C->r.below(2000); }
static void open_random() {
    Rng& r = C->r; Bytes p; HT_Timeline* t = C->tl;
    switch (r.below(6)) {
    case 0: { uint64_t l = r.interesting(); ht_feature_callstack_start_int(t, l); put<uint64_t>(p, l); opened(HT_EVENT_KLASS_GET(HT_CallstackIntEvent), p); break; }
    case 1: { const char* s = keep(random_text(r, r.below(r.chance(5) ? 500 : 25))); ht_feature_callstack_start_string(t, s); puts0(p, s); opened(HT_EVENT_KLASS_GET(HT_CallstackStringEvent), p); break; }
    case 2: { const char* s = keep(random_text(r, r.below(25))); { HT_DECL_EVENT(HvCall, e); e.tag = r.interesting(); e.x = (int32_t)r.interesting(); e.label = s; put<uint64_t>(p, e.tag); put<int32_t>(p, e.x); puts0(p, s); ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e); memset(&e, 0xEE, sizeof e); } opened(HT_EVENT_KLASS_GET(HvCall), p); break; }
    case 3: { HT_DECL_EVENT(HvCallSmall, e); e.tag = (uint8_t)r.next(); put<uint8_t>(p, e.tag); ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e); memset(&e, 0xEE, sizeof e); opened(HT_EVENT_KLASS_GET(HvCallSmall), p); break; }
    case 4: { HT_DECL_EVENT(HvCallWide, e); uint64_t* f = &e.tag; for (int i = 0; i < 15; i++) { f[i] = r.interesting(); put<uint64_t>(p, f[i]); } ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e); memset(&e, 0xEE, sizeof e); opened(HT_EVENT_KLASS_GET(HvCallWide), p); break; }
    default: { HT_DECL_EVENT(HT_CallstackBaseEvent, e); ht_feature_callstack_start(t, &e); opened(HT_EVENT_KLASS_GET(HT_CallstackBaseEvent), p); }
    }
}
static void close_one() { expect_close(); ht_feature_callstack_stop(C->tl); if (C->r.chance(5)) { ht_timeline_flush(C->tl); if (C->got != C->expect.size()) violation("not-emitted-at-close", "case %" PRIu64 ": %zu closed, %zu delivered after flush", C->no, C->expect.size(), C->got); } }
static void plain() { HT_DECL_EVENT(HvTiny, e); ht_timeline_init_event(C->tl, HT_EVENT(&e)); e.a = (uint8_t)C->r.next(); Bytes b; put<uint32_t>(b, HT_EVENT_KLASS_GET(HvTiny)->klass_id); put<uint64_t>(b, g_now.load()); put<uint8_t>(b, e.a); C->expect.push_back(b); ht_timeline_push_event(C->tl, HT_EVENT(&e)); }
struct Closing { ~Closing() { expect_close(); } }; // declared after the tracepoint: runs just before it closes
static void scoped(int depth) {
    tick(); Bytes p; uint64_t l = C->r.interesting(); const char* s = keep(random_text(C->r, C->r.below(20)));
    if (C->r.chance(50)) { HT_TP_SCOPED_INT(C->tl, l); put<uint64_t>(p, l); opened(HT_EVENT_KLASS_GET(HT_CallstackIntEvent), p); Closing c; if (depth) scoped(depth - 1); tick(); if (C->r.chance(20)) return; if (depth && C->r.chance(30)) scoped(depth - 1); }
    else { HT_TP_SCOPED_STRING(C->tl, s); puts0(p, s); opened(HT_EVENT_KLASS_GET(HT_CallstackStringEvent), p); Closing c; if (depth) scoped(depth - 1); if (depth == 0 && C->r.chance(20)) throw 1; tick(); }
}
static void c_enter(const char* s, uint64_t l, int kind) { tick(); Bytes p; if (kind) { put<uint64_t>(p, l); opened(HT_EVENT_KLASS_GET(HT_CallstackIntEvent), p); } else { puts0(p, s); opened(HT_EVENT_KLASS_GET(HT_CallstackStringEvent), p); } }
static void c_leave(void) { tick(); }
extern "C" void hv_c_closing(void) { expect_close(); }
extern "C" void hv_c_opened_before(const char* s, uint64_t l, int kind) { Bytes p; if (kind) { put<uint64_t>(p, l); opened(HT_EVENT_KLASS_GET(HT_CallstackIntEvent), p); } else { puts0(p, s); opened(HT_EVENT_KLASS_GET(HT_CallstackStringEvent), p); } }
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_init(0, NULL); hv_register_all(); (void)c_enter;
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Case c(a.seed * 1000033 + cn); C = &c; c.no = cn; Rng& r = c.r; g_now = r.chance(10) ? 0 : r.below(1ull << 60);
        c.ser = r.chance(60);
        c.tl = ht_timeline_create(r.chance(15) ? 0 : r.below(r.chance(50) ? 300 : 6000), r.chance(50), c.ser, NULL, NULL);
        if (ht_feature_callstack_enable(c.tl) != HT_ERR_OK) violation("enable-failed", "case %" PRIu64, cn);
        ht_timeline_register_listener(c.tl, cb, NULL);
        unsigned phases = (unsigned)r.range(1, 6);
        for (unsigned ph = 0; ph < phases && violation_count() < 5; ph++) {
            auto body = [&] {
                switch (r.below(4)) {
                case 0: { unsigned n = (unsigned)r.below(120); for (unsigned i = 0; i < n; i++) { tick(); if (c.stack.empty() || r.chance(52)) open_random(); else close_one(); if (r.chance(8)) plain(); } break; }
                case 1: { unsigned d = (unsigned)r.below(r.chance(20) ? 3000 : 200); for (unsigned i = 0; i < d; i++) { tick(); open_random(); } unsigned k = (unsigned)r.below(d + 1); for (unsigned i = 0; i < k; i++) { tick(); close_one(); } break; }
                case 2: try { scoped((int)r.below(12)); } catch (int) {} break;
                default: hv_c_scopes((int)r.below(10), c.tl, c_enter, c_leave);
                }
            };
            if (r.chance(30)) { std::thread th(body); th.join(); } else body();
        }
        while (!c.stack.empty() && r.chance(99) && violation_count() < 5) { tick(); close_one(); } // 1%: left open, must not be emitted
        ht_timeline_destroy(c.tl);
        if (!violated() && c.got != c.expect.size()) violation("lost-event", "case %" PRIu64 ": %zu closed or pushed, %zu delivered", cn, c.expect.size(), c.got);
        if (c.closes >= 2 && c.maxd >= 2) sig(c.h.h);
        stat("cases"); stat("scopes_closed", c.closes); stat("events_checked", c.got); stat_max("max_depth", c.maxd);
        if (cn < 2) sample("scopes=%" PRIu64 " max_depth=%zu serialised=%d phases=%u", c.closes, c.maxd, c.ser, phases);
        for (auto k : c.keep) delete k;
    }
    ht_deinit(); done(); return 0;
}
