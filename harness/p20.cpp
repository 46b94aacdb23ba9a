// P20: allocation hooks. Compiled without sanitizers (the library defines malloc & co.); the monitor logs hook calls per thread.
#include "hv.hpp"
#include <hawktracer/alloc_hooks.h>
#include <malloc.h>
#include <errno.h>
#include <stdint.h>
#include <limits>
#include <dlfcn.h>
using namespace hv;
enum { PM, QM, PC, QC, PR, QR, PF, QF }; // p = before, q = after
static const char* NM[] = {"pre-malloc", "post-malloc", "pre-calloc", "post-calloc", "pre-realloc", "post-realloc", "pre-free", "post-free"};
struct Rec { int what; void* ret; void* ptr; size_t a, b; void* ud; size_t usable; unsigned char first; };
static __thread bool t_armed; static __thread Rec t_log[16]; static __thread unsigned t_n; static __thread size_t t_peek; // size of the block being freed/reallocated: its content is looked at
static void rec(int what, void* ret, void* ptr, size_t a, size_t b, void* ud) {
    if (!t_armed) return;
    if (t_n < 16) { Rec& r = t_log[t_n]; r = Rec{what, ret, ptr, a, b, ud, 0, 0}; if ((what == QM || what == QC || what == QR) && ret) r.usable = malloc_usable_size(ret); if ((what == PF || what == PR) && ptr && t_peek) r.first = ((unsigned char*)ptr)[t_peek - 1]; }
    t_n++;
}
static void pm(void* r, size_t s, void* u) { rec(PM, r, 0, s, 0, u); } static void qm(void* r, size_t s, void* u) { rec(QM, r, 0, s, 0, u); if (r && s && t_armed) ((unsigned char*)r)[s - 1] = 0x77; }
static void pc(void* r, size_t n, size_t s, void* u) { rec(PC, r, 0, n, s, u); } static void qc(void* r, size_t n, size_t s, void* u) { rec(QC, r, 0, n, s, u); }
static void pr(void* r, void* p, size_t s, void* u) { rec(PR, r, p, s, 0, u); } static void qr(void* r, void* p, size_t s, void* u) { rec(QR, r, p, s, 0, u); }
static void pf(void* p, void* u) { rec(PF, 0, p, 0, 0, u); } static void qf(void* p, void* u) { rec(QF, 0, p, 0, 0, u); }
static unsigned g_mask; static void* g_ud;
static void reg(unsigned m, void* ud) {
    g_mask = m; g_ud = ud;
    ht_alloc_hooks_register_hooks(m & 1 ? pm : 0, m & 2 ? qm : 0, m & 4 ? pc : 0, m & 8 ? qc : 0, m & 16 ? pr : 0, m & 32 ? qr : 0, m & 64 ? pf : 0, m & 128 ? qf : 0, ud);
}
// called through volatile pointers: the compiler must not reason about them
static void* (*volatile v_malloc)(size_t) = malloc; static void* (*volatile v_calloc)(size_t, size_t) = calloc; static void* (*volatile v_realloc)(void*, size_t) = realloc; static void (*volatile v_free)(void*) = free;
static void* (*volatile k_malloc)(size_t) = ht_alloc_hooks_malloc_skip_hook; static void* (*volatile k_calloc)(size_t, size_t) = ht_alloc_hooks_calloc_skip_hook; static void* (*volatile k_realloc)(void*, size_t) = ht_alloc_hooks_realloc_skip_hook; static void (*volatile k_free)(void*) = ht_alloc_hooks_free_skip_hook;
static char* (*volatile v_strdup)(const char*) = strdup;
static void bad(const char* key, const char* op, size_t a, size_t b, const char* why) {
    char s[600]; int n = snprintf(s, sizeof s, "%s(%zu,%zu), hooks 0x%02x: %s; log:", op, a, b, g_mask, why);
    for (unsigned i = 0; i < t_n && i < 8 && n < 500; i++) n += snprintf(s + n, sizeof s - (size_t)n, " %s(ret %p ptr %p %zu %zu ud %p)", NM[t_log[i].what], t_log[i].ret, t_log[i].ptr, t_log[i].a, t_log[i].b, t_log[i].ud);
    violation(key, "%s", s);
}
// the log must be exactly: before-hook, after-hook (those registered)
static void expect(const char* op, int pre, bool skip, void* ret, void* ptr, size_t a, size_t b) {
    t_armed = false; unsigned i = 0;
    for (int k = 0; k < 2 && !skip; k++) {
        int what = pre + k; if (!(g_mask & (1u << what))) continue;
        if (i >= t_n) return bad("hook-not-called", op, a, b, NM[what]);
        Rec& r = t_log[i++];
        if (r.what != what) return bad("wrong-hook", op, a, b, NM[what]);
        void* wr = k && pre != PF ? ret : nullptr;
        if (r.ret != wr || r.ptr != ptr || r.a != a || r.b != b || r.ud != g_ud) return bad("wrong-hook-arguments", op, a, b, NM[what]);
        if (k == 0 && (what == PF || what == PR) && ptr && t_peek && r.first != 0xA5) return bad("before-hook-too-late", op, a, b, "the block was touched before the before-hook ran");
        if (k && ret && what != QF && r.usable < (what == QC ? a * b : a)) return bad("after-hook-too-early", op, a, b, "block smaller than requested in the after-hook");
    }
    if (i != t_n) return bad(skip ? "skipped-but-hooked" : "extra-hook-call", op, a, b, "more hook calls than expected");
}
struct Blk { unsigned char* p; size_t n; bool big; };
static const size_t HUGE_N = (size_t)PTRDIFF_MAX;
static void arm(size_t peek) { t_n = 0; t_peek = peek; t_armed = true; }
static void check_ret(const char* op, void* p, size_t n, size_t b, bool zero, bool must_fail, int err) {
    if (must_fail) { if (p || err != ENOMEM) bad("not-transparent", op, n, b, "an impossible request did not fail with ENOMEM"); return; }
    if (!p) return bad("not-transparent", op, n, b, "NULL");
    if ((uintptr_t)p % alignof(max_align_t)) bad("not-transparent", op, n, b, "misaligned");
    size_t t = zero ? n * b : n; if (malloc_usable_size(p) < t) bad("not-transparent", op, n, b, "block too small");
    if (zero) for (size_t i = 0; i < t; i++) if (((unsigned char*)p)[i]) { bad("not-transparent", op, n, b, "not zeroed"); break; }
}
static void ops(uint64_t seed, unsigned n, Hash& h) {
    Rng r(seed); Blk b[24]; memset(b, 0, sizeof b); unsigned counts[10] = {0};
    for (unsigned i = 0; i < n; i++) {
        Blk& x = b[r.below(24)]; bool skip = r.chance(20); int op = (int)r.below(5); bool huge = r.chance(4); size_t sz = huge ? HUGE_N + r.below(3) : r.chance(10) ? 0 : r.chance(10) ? r.range(5000, 300000) : r.range(1, 2000);
        counts[op * 2 + skip]++; h.add((uint64_t)op * 2 + skip); h.add(sz & 0xff);
        if (op <= 1 && x.p) op = 3;
        errno = 0;
        if (op == 0) { arm(0); void* p = skip ? k_malloc(sz) : v_malloc(sz); int e = errno; bool posted = !skip && (g_mask & 2) && p && sz; expect("malloc", PM, skip, p, 0, sz, 0); check_ret("malloc", p, sz, 1, false, huge, e); if (posted && ((unsigned char*)p)[sz - 1] != 0x77) bad("after-hook-too-early", "malloc", sz, 0, "what the after-hook wrote is gone"); if (p) { memset(p, 0xA5, sz); x = Blk{(unsigned char*)p, sz, false}; } }
        else if (op == 1) {
            size_t m = huge ? (r.chance(50) ? (size_t)1 << 33 : 3) : sz ? r.range(1, 9) : r.below(2), k = huge ? (m == 3 ? HUGE_N : (size_t)1 << 33) : sz / (m ? m : 1);
            arm(0); void* p = skip ? k_calloc(m, k) : v_calloc(m, k); int e = errno; expect("calloc", PC, skip, p, 0, m, k); check_ret("calloc", p, m, k, true, huge, e); if (p) { memset(p, 0xA5, m * k); x = Blk{(unsigned char*)p, m * k, false}; }
        } else if (op == 2) {
            void* old = x.p; size_t on = x.n; arm(on);
            void* p = skip ? k_realloc(old, sz) : v_realloc(old, sz); int e = errno; expect("realloc", PR, skip, p, old, sz, 0);
            if (old && sz == 0) { if (p) { check_ret("realloc", p, 0, 1, false, false, e); } x = Blk{(unsigned char*)p, 0, false}; } // freed
            else {
                check_ret("realloc", p, sz, 1, false, huge, e);
                if (p) { for (size_t j = 0; old && j < on && j < sz; j++) if (((unsigned char*)p)[j] != 0xA5) { bad("not-transparent", "realloc", sz, on, "content lost"); break; } memset(p, 0xA5, sz); x = Blk{(unsigned char*)p, sz, false}; }
                else if (old) for (size_t j = 0; j < on; j++) if (((unsigned char*)old)[j] != 0xA5) { bad("not-transparent", "realloc", sz, on, "failed realloc touched the block"); break; }
            }
        } else if (op == 3) { void* old = x.p; for (size_t j = 0; old && j < x.n; j++) if (((unsigned char*)old)[j] != 0xA5) { bad("not-transparent", "free", x.n, 0, "content of a live block changed"); break; } arm(x.n); errno = 77; if (skip) k_free(old); else v_free(old); if (errno != 77) bad("not-transparent", "free", x.n, 0, "errno changed"); expect("free", PF, skip, 0, old, 0, 0); x = Blk{0, 0, false}; }
        else { // allocations made inside the C and C++ libraries
            if (r.chance(50)) { char t[40]; size_t l = r.below(39); memset(t, 'q', l); t[l] = 0; arm(0); char* d = v_strdup(t); expect("malloc", PM, false, d, 0, l + 1, 0); arm(0); free(d); expect("free", PF, false, 0, d, 0, 0); }
            else { size_t l = r.range(1, 3000); arm(0); void* d = ::operator new(l); expect("malloc", PM, false, d, 0, l, 0); arm(0); ::operator delete(d); expect("free", PF, false, 0, d, 0, 0); }
        }
    }
    for (Blk& x : b) if (x.p) { arm(x.n); v_free(x.p); expect("free", PF, false, 0, x.p, 0, 0); }
    static const char* ON[] = {"malloc", "malloc_skip", "calloc", "calloc_skip", "realloc", "realloc_skip", "free", "free_skip", "library", "library2"};
    for (int i = 0; i < 10; i++) stat(ON[i], counts[i]);
}
static void balance(Rng& r) { // what was freed is really free again
    void* p[64]; size_t before = 0;
    for (int round = 0; round < 3; round++) {
        for (int i = 0; i < 64; i++) { size_t n = r.range(2000, 60000); bool s = r.chance(30); switch (r.below(3)) { case 0: p[i] = s ? k_malloc(n) : v_malloc(n); break; case 1: p[i] = s ? k_calloc(1, n) : v_calloc(1, n); break; default: p[i] = v_malloc(1500); p[i] = s ? k_realloc(p[i], n) : v_realloc(p[i], n); } }
        size_t mid = mallinfo2().uordblks;
        for (int i = 0; i < 64; i++) { if (r.chance(30)) k_free(p[i]); else v_free(p[i]); }
        size_t now = mallinfo2().uordblks; if (mid < now + 64 * 1500) violation("memory-not-released", "freeing 64 blocks released %zd bytes", (ssize_t)(mid - now));
        if (round == 1) before = now; else if (round == 2 && now > before + 4096) violation("memory-not-released", "%zu bytes in use after a round, %zu after the next", before, now);
    }
    stat("balance_rounds", 3);
}
int main(int argc, char** argv) {
    Args a(argc, argv); mallopt(M_MMAP_THRESHOLD, 1 << 22); mallopt(M_ARENA_MAX, 8);
    // which malloc is everybody using?
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 65537 + cn); Hash h; unsigned m = cn % 4 == 0 ? 0xff : cn % 4 == 1 ? 1u << r.below(8) : (unsigned)r.below(256); if (cn == 5) m = 0;
        reg(m, r.chance(10) ? nullptr : (void*)(uintptr_t)r.next()); h.add(m);
        unsigned nt = r.chance(50) ? 1 : (unsigned)r.range(2, 6);
        if (nt == 1) { ops(r.next(), 300, h); if (r.chance(30)) balance(r); }
        else { std::vector<std::thread> ts; uint64_t s = r.next(); for (unsigned t = 0; t < nt; t++) ts.emplace_back([=] { Hash q; ops(s + t, 300, q); }); for (auto& t : ts) t.join(); h.add(s); }
        stat("cases"); sig(h.h); if (cn < 3) sample("hooks 0x%02x, %u threads x 300 operations", m, nt);
        reg(0, nullptr);
    }
    done(); return 0;
}
