// Edge-coverage callbacks for the code under test (compiled with
// -fsanitize-coverage=trace-pc-guard): they count which edges the monitors saw
// and, when enabled, inject seeded yields/sleeps at arbitrary edges so that many
// interleavings are explored. This file is compiled without any sanitizer.
#include <atomic>
#include <cstdint>
#include <cstddef>
#include <sched.h>
#include <time.h>
static const unsigned MAXE = 1 << 16;
static unsigned char g_hit[MAXE];
static unsigned g_total;
static std::atomic<unsigned> g_one_in{0};
static std::atomic<uint64_t> g_seed{1}, g_thr{0}, g_hits{0};
extern "C" void hv_perturb_set(unsigned one_in, uint64_t seed) { g_seed.store(seed, std::memory_order_relaxed); g_one_in.store(one_in, std::memory_order_relaxed); }
extern "C" uint64_t hv_perturb_hits(void) { return g_hits.load(std::memory_order_relaxed); }
extern "C" unsigned hv_edges_total(void) { return g_total; }
extern "C" unsigned hv_edges_hit(void) { unsigned n = 0; for (unsigned i = 0; i < MAXE; i++) n += g_hit[i] != 0; return n; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; x++) *x = ++g_total;
}
static __thread uint64_t t_state;
extern "C" void hv_perturb_point(void) {
    unsigned n = g_one_in.load(std::memory_order_relaxed);
    if (!n) return;
    if (!t_state) t_state = (g_seed.load(std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull + g_thr.fetch_add(1, std::memory_order_relaxed) * 0xBF58476D1CE4E5B9ull + 1;
    uint64_t x = t_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; t_state = x;
    if ((x >> 11) % n) return;
    g_hits.fetch_add(1, std::memory_order_relaxed);
    unsigned k = (x >> 40) & 15;
    if (k < 10) sched_yield();
    else { struct timespec ts = {0, (long)((k < 14 ? 20 : 200) * 1000 + ((x >> 50) & 63) * 1000)}; nanosleep(&ts, 0); }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    uint32_t g = *guard;
    if (g && g < MAXE) g_hit[g] = 1;
    if (g_one_in.load(std::memory_order_relaxed)) hv_perturb_point();
}
