/*
 * P27: one generated single-threaded program, built against every flavour of the library (as C and as C++).
 * Prints a log of what the calls returned and leaves trace files behind; both must be the same for all flavours.
 * usage: p27 DIR CASE
 */
#ifdef P27_AMALGAMATED
#include "hawktracer.h"
#else
#include <hawktracer.h>
#include <hawktracer/event_macros_impl.h>
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(PvSmall, HT_Event, (INTEGER, uint8_t, a))
HT_DECLARE_EVENT_KLASS(PvMix, HT_Event, (INTEGER, int8_t, a), (INTEGER, uint16_t, b), (STRING, const char*, s1), (INTEGER, int32_t, c), (STRING, const char*, s2), (INTEGER, int64_t, d), (INTEGER, int16_t, e), (INTEGER, uint32_t, f), (INTEGER, uint64_t, g))
HT_DECLARE_EVENT_KLASS(PvDerived, PvMix, (INTEGER, uint32_t, x), (STRING, const char*, s3))
HT_DECLARE_EVENT_KLASS(PvCall, HT_CallstackBaseEvent, (INTEGER, uint64_t, tag), (STRING, const char*, text))
HT_DECLS_END

static uint64_t rs;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static int chance(unsigned p) { return below(100) < p; }
static uint64_t value(void) { switch (below(4)) { case 0: return below(4); case 1: return ~below(4); case 2: return 1ull << below(64); default: return rnd(); } }

static char text_buf[3][600];
static const char* text(int which)
{
    size_t n, i;
    if (chance(8)) return NULL;
    n = chance(70) ? below(20) : below(500);
    for (i = 0; i < n; i++) text_buf[which][i] = (char)(1 + below(255));
    text_buf[which][n] = 0;
    return text_buf[which];
}

/* Listener that writes a stream of its own: the description, then what it is given (serialised timelines only). */
static void to_file(TEventPtr events, size_t size, HT_Boolean serialized, void* user_data)
{
    FILE* f = (FILE*)user_data;
    if (serialized) fwrite(events, 1, size, f);
}
static void closing(void* user_data) { fclose((FILE*)user_data); printf("listener destroyed\n"); }

static void one_event(HT_Timeline* t, int pedantic)
{
    HT_DECL_EVENT(PvMix, m); HT_DECL_EVENT(PvDerived, d); HT_DECL_EVENT(PvSmall, s);
    (void)m; (void)d; (void)s;
    switch (below(4))
    {
    case 0:
        {
            uint8_t a = (uint8_t)value();
            if (pedantic) { HT_TIMELINE_PUSH_EVENT_PEDANTIC(t, PvSmall, ht_base_event, a); }
            else { HT_TIMELINE_PUSH_EVENT(t, PvSmall, a); }
        }
        break;
    case 1: {
        int8_t a = (int8_t)value(); uint16_t b = (uint16_t)value(); const char* s1 = text(0); int32_t c = (int32_t)value(); const char* s2 = text(1);
        int64_t dd = (int64_t)value(); int16_t e = (int16_t)value(); uint32_t f = (uint32_t)value(); uint64_t g = value();
        HT_TIMELINE_PUSH_EVENT(t, PvMix, a, b, s1, c, s2, dd, e, f, g);
        break; }
    case 2: {
        d.base.a = (int8_t)value(); d.base.b = (uint16_t)value(); d.base.s1 = text(0); d.base.c = (int32_t)value(); d.base.s2 = text(1); d.base.d = (int64_t)value();
        d.base.e = (int16_t)value(); d.base.f = (uint32_t)value(); d.base.g = value(); d.x = (uint32_t)value(); d.s3 = text(2);
        ht_timeline_init_event(t, HT_EVENT(&d)); ht_timeline_push_event(t, HT_EVENT(&d));
        break; }
    default:
        s.a = (uint8_t)value(); ht_timeline_init_event(t, HT_EVENT(&s)); ht_timeline_push_event(t, HT_EVENT(&s));
    }
}

static void traced_leaf(int k) { HT_G_TRACE_FUNCTION(); if (k > 0) traced_leaf(k - 1); }
static void traced(int k)
{
    HT_G_TRACE_FUNCTION();
    switch (k % 4)
    {
    case 0: { HT_G_TRACE("a scope"); traced_leaf(k / 4); break; }
#ifdef HT_G_TRACE_OPT_STATIC
    case 1: { HT_G_TRACE_OPT_STATIC("a static scope"); traced_leaf(k / 4); break; }
#else
    case 1: { HT_G_TRACE("a static scope"); traced_leaf(k / 4); break; }
#endif
    case 2: { char dyn[40]; snprintf(dyn, sizeof dyn, "dynamic %d", k); { HT_G_TRACE_OPT_DYNAMIC(dyn); memset(dyn, 0, sizeof dyn); traced_leaf(k / 4); } break; }
    default: { HT_TP_GLOBAL_SCOPED_INT(77u + (unsigned)k); traced_leaf(k / 4); }
    }
    if (k > 0 && chance(50)) { HT_G_TRACE_FUNCTION(); traced(k - 1); return; }
}

static HT_TaskScheduler* sched; static int task_runs;
static HT_Boolean a_task(void* ud) { task_runs++; printf("task %d run %d\n", *(int*)ud, task_runs); return chance(60) ? HT_TRUE : HT_FALSE; }

static int hooked[8];
#ifdef HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED
static void hm0(void* r, size_t n, void* u) { (void)r; (void)n; ((int*)u)[0]++; }
static void hm1(void* r, size_t n, void* u) { (void)r; (void)n; ((int*)u)[1]++; }
static void hc0(void* r, size_t m, size_t n, void* u) { (void)r; (void)m; (void)n; ((int*)u)[2]++; }
static void hc1(void* r, size_t m, size_t n, void* u) { (void)r; (void)m; (void)n; ((int*)u)[3]++; }
static void hr0(void* r, void* p, size_t n, void* u) { (void)r; (void)p; (void)n; ((int*)u)[4]++; }
static void hr1(void* r, void* p, size_t n, void* u) { (void)r; (void)p; (void)n; ((int*)u)[5]++; }
static void hf0(void* p, void* u) { (void)p; ((int*)u)[6]++; }
static void hf1(void* p, void* u) { (void)p; ((int*)u)[7]++; }
#endif

/* Everything a timeline was given, to compare with a second timeline in pass-through form. */
#define MAXT 3
static void program(const char* dir, unsigned cn)
{
    HT_Timeline* t[MAXT]; unsigned nt, i, ops, depth[MAXT]; int cs[MAXT], fc[MAXT]; HT_FileDumpListener* fd; HT_ErrorCode err = HT_ERR_OK; char path[600]; FILE* f;
    char a0[] = "prog", a1[64]; char* argv[3]; HT_EventIdProvider* own = NULL; static int ids[16]; HT_TaskId tid[16]; unsigned ntask = 0; char lbl[64]; size_t nk = 0, n1, n2, n3; int glob;
    rs = cn * 0x1234567ull + 99;
    argv[0] = a0; snprintf(a1, sizeof a1, "--ht-global-timeline-buffer-size=%u", (unsigned)below(3000)); argv[1] = a1; argv[2] = NULL;
    printf("case %u\n", cn);
    ht_init(cn % 5 ? 2 : 1, argv);
    printf("init %d\n", (int)ht_is_initialized());
    if (chance(80)) { printf("klass order a\n"); HT_REGISTER_EVENT_KLASS(PvSmall); HT_REGISTER_EVENT_KLASS(PvMix); HT_REGISTER_EVENT_KLASS(PvDerived); HT_REGISTER_EVENT_KLASS(PvCall); }
    else { HT_REGISTER_EVENT_KLASS(PvCall); HT_REGISTER_EVENT_KLASS(PvMix); HT_REGISTER_EVENT_KLASS(PvDerived); HT_REGISTER_EVENT_KLASS(PvSmall); HT_REGISTER_EVENT_KLASS(PvMix); }
    { HT_EventKlass** k = ht_registry_get_event_klasses(&nk); printf("classes %u", (unsigned)nk); for (i = 0; i < nk; i++) printf(" %s:%u", k[i]->type_info->name, (unsigned)k[i]->klass_id); printf("\n"); }
    glob = chance(70);
    if (glob)
    {
        size_t bs = 1 + below(4000); snprintf(path, sizeof path, "%s/%u-global.htdump", dir, cn);
        fd = ht_file_dump_listener_register(ht_global_timeline_get(), path, bs, &err); printf("global listener %d %d\n", fd != NULL, (int)err);
    }
    if (chance(50)) own = ht_event_id_provider_create();
    nt = 1 + (unsigned)below(MAXT);
    for (i = 0; i < nt; i++)
    {
        size_t cap = chance(20) ? 0 : below(2500); HT_Boolean safe = chance(50) ? HT_TRUE : HT_FALSE, ser = chance(75) ? HT_TRUE : HT_FALSE; int named = chance(30);
        snprintf(lbl, sizeof lbl, "set-%u-%u", cn, i);
        t[i] = ht_timeline_create(cap, safe, ser, named ? lbl : NULL, NULL);
        printf("timeline %d\n", t[i] != NULL);
        cs[i] = chance(70); fc[i] = chance(70); depth[i] = 0;
        if (cs[i]) printf("callstack %d\n", (int)ht_feature_callstack_enable(t[i]));
        if (fc[i]) printf("cached %d\n", (int)ht_feature_cached_string_enable(t[i], chance(50) ? HT_TRUE : HT_FALSE));
        if (fc[i] && chance(20)) printf("cached again %d\n", (int)ht_feature_cached_string_enable(t[i], HT_FALSE));
        snprintf(path, sizeof path, "%s/%u-%u.htdump", dir, cn, i);
        if (ser && chance(50))
        {
            f = fopen(path, "wb"); ht_timeline_listener_push_metadata(to_file, f, HT_TRUE);
            printf("register %d\n", (int)ht_timeline_register_listener_full(t[i], to_file, f, closing));
        }
        else { size_t bs = 1 + below(3000); fd = ht_file_dump_listener_register(t[i], path, bs, &err); printf("dump %d %d\n", fd != NULL, (int)err); }
    }
    sched = ht_task_scheduler_create(&err); printf("scheduler %d\n", sched != NULL);
    ops = (unsigned)below(120);
    while (ops--)
    {
        unsigned k = (unsigned)below(nt); HT_Timeline* x = t[k];
        switch (below(16))
        {
        case 0: case 1: case 2: case 3: one_event(x, chance(50)); break;
        case 4: if (cs[k]) { ht_feature_callstack_start_int(x, value()); depth[k]++; } break;
        case 5: if (cs[k]) { const char* l[3] = { "one", "two", "a longer label with spaces" }; ht_feature_callstack_start_string(x, l[below(3)]); depth[k]++; } break;
        case 6: if (cs[k]) { HT_DECL_EVENT(PvCall, c); c.tag = value(); c.text = "call text"; ht_feature_callstack_start(x, (HT_CallstackBaseEvent*)&c); depth[k]++; } break;
        case 7: case 8: if (cs[k] && depth[k]) { ht_feature_callstack_stop(x); depth[k]--; } break;
        case 9: if (fc[k]) { static const char* s[4] = { "static 0", "static 1", "static 2", "" }; unsigned w = (unsigned)below(4); uintptr_t m = ht_feature_cached_string_add_mapping(x, s[w]); printf("mapping %d\n", m == ht_feature_cached_string_add_mapping(x, s[w])); } break;
        case 10: if (fc[k]) { uintptr_t m; snprintf(lbl, sizeof lbl, "dyn %u", (unsigned)below(12)); m = ht_feature_cached_string_add_mapping_dynamic(x, lbl); printf("dynamic %d %d\n", m != 0, m == ht_feature_cached_string_add_mapping_dynamic(x, lbl)); } break;
        case 11: ht_timeline_flush(x); break;
        case 12: if (fc[k]) ht_feature_cached_string_push_map(x); break;
        case 13: traced((int)below(8)); if (chance(20)) ht_timeline_flush(ht_global_timeline_get()); break;
        case 14:
            if (ntask < 16 && chance(60)) { ids[ntask] = (int)ntask; { int m1 = chance(50), m2 = chance(60); tid[ntask] = ht_task_scheduler_schedule_task(sched, m1 ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER, m2 ? 0 : 3600000000000ull, a_task, &ids[ntask]); } printf("task %d id %d\n", ids[ntask], (int)tid[ntask]); ntask++; }
            else if (ntask && chance(30)) { unsigned w = (unsigned)below(ntask); printf("remove %u %d\n", w, (int)ht_task_scheduler_remove_task(sched, tid[w])); }
            else { ht_task_scheduler_tick(sched); printf("tick period %lu\n", (unsigned long)ht_task_scheduler_get_optimal_tick_period(sched)); }
            break;
        default: if (own) { HT_EventId a = ht_event_id_provider_next(own); printf("id %lu\n", (unsigned long)a); } break;
        }
    }
    printf("runs %d\n", task_runs);
    ht_task_scheduler_destroy(sched);
    {
        HT_CPUUsageContext* c = ht_cpu_usage_context_create(NULL); HT_MemoryUsageContext* m = ht_memory_usage_context_create(NULL); size_t vm = 0, sh = 0, rss = 0; float p;
        p = c ? ht_cpu_usage_get_percentage(c) : -2; printf("cpu %d %d\n", c != NULL, p >= 0.0f);
        printf("memory %d %d", m != NULL, m ? (int)ht_memory_usage_get_usage(m, &vm, &sh, &rss) : -1); printf(" %d %d\n", vm > 0, rss > 0 && rss <= vm && sh <= rss);
        if (c) ht_cpu_usage_context_destroy(c);
        if (m) ht_memory_usage_context_destroy(m);
    }
    n1 = 1 + below(3000), n2 = 1 + below(5), n3 = 1 + below(9000);
#ifdef HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED
    {
        void* volatile p; void* volatile q; fflush(stdout); memset(hooked, 0, sizeof hooked);
        ht_alloc_hooks_register_hooks(hm0, hm1, hc0, hc1, hr0, hr1, hf0, hf1, hooked);
        p = malloc(n1); q = calloc(n2, 8); p = realloc(p, n3); free(p); free(q); p = ht_alloc_hooks_malloc_skip_hook(8); ht_alloc_hooks_free_skip_hook(p);
        ht_alloc_hooks_register_hooks(NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
    }
#endif
    (void)n1; (void)n2; (void)n3;
    printf("hooks"); for (i = 0; i < 8; i++) printf(" %d", hooked[i]); printf("\n");
    for (i = 0; i < nt; i++)
    {
        while (depth[i] && chance(85)) { ht_feature_callstack_stop(t[i]); depth[i]--; }
        if (chance(85)) { ht_timeline_destroy(t[i]); t[i] = NULL; }
    }
    printf("endianness %d\n", (int)ht_system_info_get_endianness());
    if (chance(50)) ht_deinit();
    for (i = 0; i < nt; i++) if (t[i]) ht_timeline_destroy(t[i]);
    if (ht_is_initialized()) ht_deinit();
    if (own) ht_event_id_provider_destroy(own);
    printf("end %d\n", (int)ht_is_initialized());
    fflush(stdout);
    /* what is left of the global timeline is delivered when the thread - here the process - ends */
}

int main(int argc, char** argv)
{
    unsigned cn;
    if (argc != 3) return 2;
    cn = (unsigned)strtoul(argv[2], NULL, 10);
    program(argv[1], cn);
    return 0;
}
