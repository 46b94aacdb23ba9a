// P14: the containers against abstract models, with allocation failures injected.
#include "hv_ev.hpp"
#include <hawktracer/alloc.h>
#include <hawktracer/init.h>
extern "C" {
#include <internal/bag.h>
#include <internal/stack.h>
#include <internal/hash_map.h>
#include <internal/listener_buffer.h>
}
using namespace hv;
// allocator: always moves, poisons what it releases, fails on demand
static unsigned g_fail_in = 0; static uint64_t g_failed = 0, g_allocs = 0; static std::map<void*, size_t> g_live;
static void* allocator(void* p, size_t n, void*) {
    if (!n) { if (p) { if (!g_live.count(p)) { violation("foreign-pointer", "release of %p", p); return nullptr; } memset(p, 0xDD, g_live[p]); g_live.erase(p); free(p); } return nullptr; }
    g_allocs++;
    if (g_fail_in && --g_fail_in == 0) { g_failed++; return nullptr; }
    size_t old = 0;
    if (p) { if (!g_live.count(p)) { violation("foreign-pointer", "resize of %p", p); return nullptr; } old = g_live[p]; }
    void* q = malloc(n); memset(q, 0xCC, n);
    if (p) { memcpy(q, p, std::min(old, n)); memset(p, 0xDD, old); g_live.erase(p); free(p); }
    g_live[q] = n; return q;
}
static std::string W; // what is being tested (for reports)
static uint64_t g_case;
#define BAD(key, ...) do { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); violation(key, "case %" PRIu64 " %s: %s", g_case, W.c_str(), b_); } while (0)
static void maybe_fail(Rng& r, unsigned pct) { g_fail_in = r.chance(pct) ? (unsigned)r.range(1, 2) : 0; }

template <class B, class T> struct BagApi { HT_ErrorCode (*init)(B*, size_t); void (*deinit)(B*); void (*remove)(B*, size_t); HT_ErrorCode (*add)(B*, T); void (*clear)(B*); };
template <class B, class T> void bag(Rng& r, const BagApi<B, T>& api, const char* name) {
    W = name; B b; size_t mincap = r.chance(70) ? r.range(1, 4) : r.range(1, 40); Hash h; h.add(mincap);
    maybe_fail(r, 5); uint64_t f0 = g_failed; HT_ErrorCode e = api.init(&b, mincap);
    bool failed = g_failed != f0; g_fail_in = 0;
    if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "init: error %d, allocation failed: %d", (int)e, failed);
    if (e != HT_ERR_OK) { if (!g_live.empty()) BAD("leak-on-failure", "init"); return; }
    std::vector<T> m; bool big = r.chance(1); unsigned steps = (unsigned)r.range(20, big ? 5000 : r.chance(10) ? 2000 : 250), grow = (unsigned)r.range(30, 80), fails = r.chance(50) ? 0 : 10, maxn = 0, nfail = 0;
    for (unsigned i = 0; i < steps && violation_count() < 5; i++) {
        if (i % 60 == 59) grow = big ? i % 1500 < 1100 ? 85 : 15 : (unsigned)r.range(20, 85);
        f0 = g_failed;
        if (r.below(100) < grow || m.empty()) {
            T v = (T)r.interesting(); maybe_fail(r, fails);
            e = api.add(&b, v); g_fail_in = 0; failed = g_failed != f0;
            if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "add: error %d, allocation failed: %d", (int)e, failed);
            if (e == HT_ERR_OK) { m.push_back(v); if (ht_bag_size(b) && ht_bag_last(b) != v) BAD("last-not-added", "the element added is not the last one"); } else nfail++;
            h.add(1 + (uint64_t)e);
        } else if (r.chance(1)) { maybe_fail(r, fails * 3); api.clear(&b); g_fail_in = 0; m.clear(); h.add(9); }
        else {
            size_t n = r.chance(30) ? m.size() - 1 : r.below(m.size()); T gone = ht_bag_nth(b, n); maybe_fail(r, fails);
            bool last = n == m.size() - 1;
            api.remove(&b, n); g_fail_in = 0; h.add(100 + n);
            auto it = std::find(m.begin(), m.end(), gone); if (it == m.end()) { BAD("altered", "nth(%zu) is not in the model", n); break; } m.erase(last ? m.end() - 1 : it);
            if (last && ht_bag_size(b) == m.size()) for (size_t k = 0; k < m.size(); k++) if (ht_bag_nth(b, k) != m[k]) { BAD("altered", "removing the last element changed element %zu", k); break; }
        }
        if (ht_bag_size(b) != m.size()) { BAD("wrong-size", "%zu instead of %zu", ht_bag_size(b), m.size()); break; }
        std::vector<T> got; for (size_t k = 0; k < m.size(); k++) got.push_back(ht_bag_nth(b, k));
        std::vector<T> s1 = got, s2 = m; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
        if (s1 != s2) { BAD("contents", "contents differ from the model at step %u (%zu elements)", i, m.size()); break; }
        m = got; maxn = std::max<unsigned>(maxn, (unsigned)m.size());
    }
    api.deinit(&b); if (!g_live.empty()) BAD("leak", "after deinit");
    if (maxn > mincap) { sig(h.h); stat("grown_bags"); } stat("bag_steps", steps); stat("failed_insertions", nfail); stat_max("max_bag_size", maxn);
}
static void stack(Rng& r) {
    W = "stack"; HT_Stack s; size_t cap = r.chance(60) ? r.range(1, 16) : r.range(1, 300), ncap = r.range(1, 8); Hash h; h.add(cap); h.add(ncap);
    maybe_fail(r, 6); uint64_t f0 = g_failed; HT_ErrorCode e = ht_stack_init(&s, cap, ncap); bool failed = g_failed != f0; g_fail_in = 0;
    if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "init");
    if (e != HT_ERR_OK) { if (!g_live.empty()) BAD("leak-on-failure", "init"); return; }
    std::vector<Bytes> m; size_t total = 0, maxt = 0; unsigned steps = (unsigned)r.range(20, r.chance(10) ? 1500 : 250), grow = (unsigned)r.range(30, 80), fails = r.chance(50) ? 0 : 10, nfail = 0;
    for (unsigned i = 0; i < steps && violation_count() < 5; i++) {
        if (i % 50 == 49) grow = (unsigned)r.range(15, 85);
        if (r.below(100) < grow || m.empty()) {
            size_t n = r.chance(10) ? 0 : r.chance(10) ? r.range(1, 5000) : r.range(1, 90); Bytes d(n); for (auto& c : d) c = (uint8_t)r.next();
            Bytes in = d; maybe_fail(r, fails); f0 = g_failed; e = ht_stack_push(&s, in.data(), n); g_fail_in = 0; failed = g_failed != f0;
            if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "push: error %d, allocation failed %d", (int)e, failed);
            std::fill(in.begin(), in.end(), 0xEE);
            if (e == HT_ERR_OK) { m.push_back(d); total += n; } else nfail++;
            h.add(n);
        } else { maybe_fail(r, fails); ht_stack_pop(&s); g_fail_in = 0; total -= m.back().size(); m.pop_back(); h.add(7777); }
        if (!m.empty() && memcmp(ht_stack_top(&s), m.back().data(), m.back().size())) { BAD("wrong-top", "at step %u depth %zu", i, m.size()); break; }
        if (s.size != total) { BAD("wrong-size", "%zu bytes instead of %zu", s.size, total); break; }
        maxt = std::max(maxt, total);
        if (r.chance(3)) { size_t o = 0; for (auto& d : m) { if (memcmp((char*)s.data + o, d.data(), d.size())) { BAD("contents", "a lower element changed"); break; } o += d.size(); } }
    }
    while (!m.empty() && violation_count() < 5) { if (memcmp(ht_stack_top(&s), m.back().data(), m.back().size())) { BAD("wrong-top", "unwinding, depth %zu", m.size()); break; } ht_stack_pop(&s); m.pop_back(); }
    ht_stack_deinit(&s); if (!g_live.empty()) BAD("leak", "after deinit");
    if (maxt > cap) { sig(h.h); stat("grown_stacks"); } stat("stack_steps", steps); stat("failed_insertions", nfail); stat_max("max_stack_bytes", maxt);
}
struct Visit { std::map<uint64_t, const char*> seen; bool dup = false; size_t limit, calls = 0; };
static HT_Boolean visit(uint64_t k, const char* v, void* ud) { auto x = (Visit*)ud; x->calls++; if (!x->seen.emplace(k, v).second) x->dup = true; return x->calls < x->limit ? HT_TRUE : HT_FALSE; }
static void hashmap(Rng& r) {
    W = "hash map"; std::unique_ptr<HT_HashMap> mp(new HT_HashMap); HT_HashMap* hm = mp.get(); memset(hm, 0xA5, sizeof *hm); Hash h;
    g_fail_in = r.chance(20) ? (unsigned)r.range(1, 1024) : 0; uint64_t f0 = g_failed; HT_ErrorCode e = ht_hash_map_init(hm); bool failed = g_failed != f0; g_fail_in = 0;
    if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "init: error %d failed %d", (int)e, failed);
    if (e != HT_ERR_OK) { stat("failed_map_inits"); if (!g_live.empty()) BAD("leak-on-failure", "init leaves %zu blocks", g_live.size()); return; }
    static char values[4096]; std::map<uint64_t, const char*> m; unsigned steps = (unsigned)r.range(20, 600), fails = r.chance(50) ? 0 : 15, nfail = 0, collide = 0;
    uint64_t stem = r.interesting(); std::set<uint64_t> tried;
    for (unsigned i = 0; i < steps && violation_count() < 5; i++) {
        uint64_t k = r.chance(40) ? stem + 512 * r.below(60) : r.chance(30) ? (r.next() << 32) + stem % 512 : r.chance(40) && !m.empty() ? std::next(m.begin(), r.below(m.size()))->first : r.interesting();
        tried.insert(k); if (k % 512 == stem % 512) collide++;
        if (r.chance(75)) {
            const char* v = &values[r.below(4096)]; HT_ErrorCode err = HT_ERR_OK; bool noerr = r.chance(10); maybe_fail(r, fails); f0 = g_failed;
            const char* prev = ht_hash_map_insert(hm, k, v, noerr ? nullptr : &err); g_fail_in = 0; failed = g_failed != f0;
            auto it = m.find(k); const char* want = it == m.end() ? nullptr : it->second;
            if (!noerr && failed != (err != HT_ERR_OK)) BAD("error-not-reported", "insert: error %d failed %d", (int)err, failed);
            if (prev != want) BAD("wrong-previous", "key %" PRIx64, k);
            if (!failed) m[k] = v; else nfail++;
            h.add(k);
        }
        const char* g = ht_hash_map_get_value(hm, k); auto it = m.find(k);
        if (g != (it == m.end() ? nullptr : it->second)) BAD("wrong-value", "key %" PRIx64, k);
        if (i % 97 == 96 || i + 1 == steps) {
            Visit v; v.limit = SIZE_MAX; ht_hash_map_for_each(hm, visit, &v); if (v.dup || v.seen != m) BAD("wrong-iteration", "%zu keys visited (%s), %zu stored", v.seen.size(), v.dup ? "one twice" : "no repeats", m.size());
            if (!m.empty()) { Visit w; w.limit = r.range(1, m.size()); ht_hash_map_for_each(hm, visit, &w); if (w.calls != w.limit) BAD("iteration-not-stopped", "%zu calls, asked to stop at %zu", w.calls, w.limit); }
        }
    }
    for (uint64_t k : tried) { const char* g = ht_hash_map_get_value(hm, k); auto it = m.find(k); if (g != (it == m.end() ? nullptr : it->second)) { BAD("wrong-value", "key %" PRIx64 " at the end", k); break; } }
    ht_hash_map_deinit(hm); if (!g_live.empty()) BAD("leak", "after deinit: %zu", g_live.size());
    if (collide > 5) { sig(h.h); stat("colliding_maps"); } stat("map_steps", steps); stat("failed_insertions", nfail);
}
struct Sink { Bytes got; uint64_t calls = 0; };
static void on_flush(void* l, HT_Byte* d, size_t n) { auto s = (Sink*)l; s->calls++; if (n) s->got.insert(s->got.end(), d, d + n); }
static void buffer(Rng& r) {
    W = "listener buffer"; HT_ListenerBuffer b; bool ser = r.chance(50); size_t max = ser && r.chance(15) ? 0 : r.chance(60) ? r.range(1, 80) : r.range(1, 2000); Hash h; h.add(max);
    maybe_fail(r, 5); uint64_t f0 = g_failed; HT_ErrorCode e = ht_listener_buffer_init(&b, max); bool failed = g_failed != f0; g_fail_in = 0;
    if (failed != (e != HT_ERR_OK)) BAD("error-not-reported", "init");
    if (e != HT_ERR_OK) { if (!g_live.empty()) BAD("leak-on-failure", "init"); return; }
    Sink s; Bytes want; unsigned steps = (unsigned)r.range(5, 120), dropped = 0, fails = r.chance(60) ? 0 : 15;
    for (unsigned i = 0; i < steps && violation_count() < 5; i++) {
        if (r.chance(12)) { ht_listener_buffer_flush(&b, on_flush, &s); if (s.got != want) BAD("flush-incomplete", "%zu of %zu bytes after flush", s.got.size(), want.size()); h.add(5); continue; }
        if (ser) {
            size_t n = r.chance(10) ? 0 : r.chance(30) && max ? r.range(max > 2 ? max - 2 : 0, max * 2 + 1) : r.range(1, 200); Bytes d(n); for (auto& c : d) c = (uint8_t)r.next();
            want.insert(want.end(), d.begin(), d.end()); ht_listener_buffer_process_serialized_events(&b, d.data(), n, on_flush, &s); std::fill(d.begin(), d.end(), 0xEE); h.add(n);
        } else {
            unsigned k = (unsigned)r.range(1, 4); std::vector<std::unique_ptr<AnyEvent>> ev; Bytes raw, w; std::vector<Bytes> each;
            maybe_fail(r, fails); if (g_fail_in) k = 1; unsigned fi = g_fail_in; g_fail_in = 0;
            for (unsigned j = 0; j < k; j++) { ev.emplace_back(new AnyEvent); ev.back()->randomize(r, r.chance(30) ? std::max<size_t>(35, max + r.below(5)) - 2 : 0); size_t sz = struct_size(ev.back()->ev()); raw.insert(raw.end(), ev.back()->mem, ev.back()->mem + sz); Bytes x = ev.back()->wire(); w.insert(w.end(), x.begin(), x.end()); h.add(x.size()); }
            f0 = g_failed; g_fail_in = fi ? 1 : 0;
            ht_listener_buffer_process_unserialized_events(&b, raw.data(), raw.size(), on_flush, &s); g_fail_in = 0; std::fill(raw.begin(), raw.end(), 0xEE);
            if (g_failed == f0) want.insert(want.end(), w.begin(), w.end()); else { // the item that could not be stored is either delivered whole or not at all
                dropped++; ht_listener_buffer_flush(&b, on_flush, &s); if (s.got.size() != want.size()) want.insert(want.end(), w.begin(), w.end()); }
        }
        if (s.got.size() > want.size() || !std::equal(s.got.begin(), s.got.end(), want.begin())) { BAD("contents", "flushed bytes differ from the input at step %u", i); break; }
        if (want.size() - s.got.size() > max) BAD("overfull", "%zu bytes pending in a buffer of %zu", want.size() - s.got.size(), max);
    }
    ht_listener_buffer_flush(&b, on_flush, &s); if (s.got != want && violation_count() < 5) BAD("flush-incomplete", "%zu of %zu bytes at the end", s.got.size(), want.size());
    ht_listener_buffer_deinit(&b); if (!g_live.empty()) BAD("leak", "after deinit");
    if (s.calls > 2 && !want.empty()) { sig(h.h); stat("flushed_buffers"); } stat("buffer_steps", steps); stat("flushed_bytes", s.got.size()); stat("dropped_oversized_events", dropped);
}
int main(int argc, char** argv) {
    Args a(argc, argv); ht_init(0, nullptr); hv_register_all(); ht_allocator_set(allocator, nullptr);
    static const BagApi<HT_BagUInt64, uint64_t> b64 = { ht_bag_uint64_init, ht_bag_uint64_deinit, ht_bag_uint64_remove_nth, ht_bag_uint64_add, ht_bag_uint64_clear };
    static const BagApi<HT_BagVoidPtr, void*> bvp = { ht_bag_void_ptr_init, ht_bag_void_ptr_deinit, ht_bag_void_ptr_remove_nth, ht_bag_void_ptr_add, ht_bag_void_ptr_clear };
    static const BagApi<HT_BagInt, int> bi = { ht_bag_int_init, ht_bag_int_deinit, ht_bag_int_remove_nth, ht_bag_int_add, ht_bag_int_clear };
    for (g_case = 0; g_case < a.cases && violation_count() < 5; g_case++) {
        Rng r(a.seed * 7919 + g_case); g_live.clear();
        switch (r.below(6)) { case 0: bag(r, b64, "bag of 64-bit integers"); break; case 1: bag(r, bvp, "bag of pointers"); break; case 2: bag(r, bi, "bag of ints"); break; case 3: stack(r); break; case 4: hashmap(r); break; default: buffer(r); }
        if (g_case < 3) sample("case %" PRIu64 ": %s, %" PRIu64 " allocations so far, %" PRIu64 " of them failed", g_case, W.c_str(), g_allocs, g_failed);
        stat("cases");
    }
    ht_allocator_set(nullptr, nullptr); ht_deinit(); stat("allocations", g_allocs); stat("injected_failures", g_failed); done(); return 0;
}
