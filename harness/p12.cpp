// P12: event ids, thread ids and timestamps recorded under contention, checked offline.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/thread.h>
#include <hawktracer/timeline.h>
#include <hawktracer/event_id_provider.h>
#include <hawktracer/monotonic_clock.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace hv;
// The wall clock of this process, which an administrator or NTP may set at any moment; other clocks are not affected.
static std::atomic<int64_t> g_wall{0};
static void shift(struct timespec* t) { int64_t ns = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec + g_wall.load(std::memory_order_relaxed); t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; }
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    int r = (int)syscall(SYS_clock_gettime, id, t); if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) shift(t); return r;
}
extern "C" int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* out) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (out) *out = t.tv_sec; return t.tv_sec; }
static uint64_t os_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec; }
static std::mutex g_alive_m; static std::set<uint32_t> g_alive; // only taken outside the library calls
struct Stamp { uint64_t before, lib, after; };
int main(int argc, char** argv) {
    Args a(argc, argv); ht_init(0, NULL); hv_register_all();
    unsigned heavy = (unsigned)a.num("ids", 3000);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 50021 + cn); unsigned nt = (unsigned)r.range(2, 8), per = (unsigned)r.range(10, heavy); bool own = r.chance(30); unsigned mode = (unsigned)r.below(3);
        HT_EventIdProvider* prov = own ? ht_event_id_provider_create() : ht_event_id_provider_get_default();
        if (!prov) { violation("no-provider", "-"); break; }
        if (!own && prov != ht_event_id_provider_get_default()) violation("default-provider-changed", "-");
        std::vector<HT_Timeline*> tl; for (unsigned i = 0; i < 3; i++) { tl.push_back(ht_timeline_create(200, i % 2, HT_TRUE, NULL, NULL)); if (ht_timeline_get_id_provider(tl.back()) != ht_event_id_provider_get_default()) note("timeline has its own id source"); }
        hv_perturb_set(mode == 0 ? 0 : (unsigned)r.range(10, 300), r.next());
        std::vector<std::vector<uint64_t>> ids(nt); std::vector<std::vector<Stamp>> st(nt); std::vector<uint32_t> tid(nt); std::atomic<unsigned> ready{0}, ready2{0}, late{0}, wall_steps{0};
        std::vector<std::thread> th; bool stagger = r.chance(50);
        for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] {
            Rng q(a.seed + cn * 11 + i);
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) {}
            if (stagger && q.chance(50)) std::this_thread::yield();
            uint32_t id = ht_thread_get_current_thread_id(); tid[i] = id;
            if (!id) violation("zero-thread-id", "case %" PRIu64, cn);
            { std::lock_guard<std::mutex> l(g_alive_m); if (!g_alive.insert(id).second) violation("thread-id-shared", "case %" PRIu64 ": id %u given to two living threads", cn, id); }
            ready2.fetch_add(1, std::memory_order_relaxed); while (ready2.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            uint64_t prev_ts = 0; ids[i].reserve(per); HT_DECL_EVENT(HvTiny, e);
            for (unsigned k = 0; k < per; k++) {
                if (!own && (k & 3) == 0) { ht_timeline_init_event(tl[k % 3], HT_EVENT(&e)); ids[i].push_back(HT_EVENT(&e)->id); if (HT_EVENT(&e)->timestamp < prev_ts) violation("time-went-back", "case %" PRIu64, cn); prev_ts = HT_EVENT(&e)->timestamp; }
                else ids[i].push_back(ht_event_id_provider_next(prov));
                if ((k & 15) == 0) {
                    Stamp s; s.before = os_now(); s.lib = ht_monotonic_clock_get_timestamp(); s.after = os_now(); st[i].push_back(s);
                    if (s.lib < prev_ts) violation("time-went-back", "case %" PRIu64 ": %" PRIu64 " after %" PRIu64, cn, s.lib, prev_ts);
                    prev_ts = s.lib;
                    if (q.chance(3)) { g_wall.fetch_add((int64_t)q.below(8000000000ull) - 4000000000ll, std::memory_order_relaxed); wall_steps.fetch_add(1, std::memory_order_relaxed); }
                    if (q.chance(5)) { struct timespec ts = {0, (long)q.below(3000000)}; nanosleep(&ts, 0); }
                }
                if ((k & 63) == 0 && ht_thread_get_current_thread_id() != id) violation("thread-id-changed", "case %" PRIu64, cn);
            }
            { std::lock_guard<std::mutex> l(g_alive_m); g_alive.erase(id); }
        });
        for (auto& x : th) x.join();
        hv_perturb_set(0, 0);
        std::vector<std::pair<uint64_t, unsigned>> all;
        for (unsigned i = 0; i < nt; i++) for (size_t k = 0; k < ids[i].size(); k++) { if (k && ids[i][k] <= ids[i][k - 1]) { violation("id-not-increasing", "case %" PRIu64 ": thread %u got %" PRIu64 " after %" PRIu64, cn, i, ids[i][k], ids[i][k - 1]); break; } all.push_back({ids[i][k], i}); }
        std::sort(all.begin(), all.end()); Hash h; unsigned sw = 0;
        for (size_t k = 1; k < all.size(); k++) { if (all[k].first == all[k - 1].first) { violation("duplicate-event-id", "case %" PRIu64 ": id %" PRIu64 " given twice (threads %u and %u of %u)", cn, all[k].first, all[k - 1].second, all[k].second, nt); break; } sw += all[k].second != all[k - 1].second; h.add(all[k].second); }
        uint64_t pairs = 0;
        for (auto& v : st) for (size_t k = 1; k < v.size(); k++) { // elapsed library time against the OS clock read around it
            Stamp &x = v[k - 1 - (k > 8 ? 8 : k - 1)], &y = v[k]; int64_t d = (int64_t)(y.lib - x.lib), lo = (int64_t)(y.before - x.after), hi = (int64_t)(y.after - x.before); int64_t tol = 1000000 + hi / 500; pairs++;
            if (d < lo - tol || d > hi + tol) { violation("clock-drift", "case %" PRIu64 ": library says %" PRId64 " ns passed, between %" PRId64 " and %" PRId64 " did", cn, d, lo, hi); break; }
        }
        if (sw > nt) sig(h.h);
        stat("cases"); stat("ids_checked", all.size()); stat("id_thread_switches", sw); stat("intervals_checked", pairs); stat("threads", nt); stat("wall_clock_steps", wall_steps.load());
        if (cn < 2) sample("threads=%u ids=%zu switches=%u own_source=%d", nt, all.size(), sw, own);
        for (auto t : tl) ht_timeline_destroy(t);
        if (own) ht_event_id_provider_destroy(prov);
    }
    ht_deinit(); done(); return 0;
}
