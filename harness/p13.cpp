// P13: the task scheduler against a reference model, on a virtual clock.
#include "hv.hpp"
#include <hawktracer/task_scheduler.h>
#include <hawktracer/duration_conversion.h>
using namespace hv;
static uint64_t g_now;
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }
struct Task { int32_t id = -1; bool ignore; uint64_t period, due; bool alive = true; unsigned runs_this_tick = 0; bool must = false, removed_before_run = false; uint64_t born_tick; unsigned runs = 0; struct World* w; };
struct World { bool many = false;
    uint64_t no; Rng r; HT_TaskScheduler* s; std::vector<std::unique_ptr<Task>> all; std::map<int32_t, Task*> ids; bool in_tick = false; uint64_t ticks = 0, ran = 0, removed_inside = 0; Hash h; uint64_t tick_start = 0; Task* running = nullptr;
    World(uint64_t seed) : r(seed) {}
    Task* any() { std::vector<Task*> v; for (auto& t : all) if (t->alive) v.push_back(t.get()); return v.empty() ? nullptr : v[r.below(v.size())]; }
};
static void bad(World& w, const char* key, const char* fmt, ...) { char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(key, "case %" PRIu64 " tick %" PRIu64 " now %" PRIu64 ": %s", w.no, w.ticks, g_now, b); }
static HT_Boolean run_task(void* ud);
static void schedule(World& w) {
    auto t = std::unique_ptr<Task>(new Task); t->w = &w; Rng& r = w.r; t->ignore = r.chance(50);
    t->period = r.chance(10) ? 0 : r.chance(10) ? r.below(1ull << 40) : r.chance(50) ? 5 * r.range(1, 40) : r.range(1, 500);
    t->due = g_now + t->period; t->born_tick = w.ticks;
    int32_t id = ht_task_scheduler_schedule_task(w.s, t->ignore ? HT_TASK_SCHEDULING_IGNORE_DELAYS : HT_TASK_SCHEDULING_RESTART_TIMER, t->period, run_task, t.get());
    if (id < 0) { bad(w, "schedule-failed", "period %" PRIu64, t->period); return; }
    if (w.ids.count(id)) bad(w, "duplicate-task-id", "%d", id);
    t->id = id; w.ids[id] = t.get(); w.h.add(t->period); w.h.add(t->ignore); w.all.push_back(std::move(t));
}
static void remove_any(World& w) {
    if (w.r.chance(10)) { int32_t id = w.r.chance(50) ? -1 - (int32_t)w.r.below(5) : 1000000 + (int32_t)w.r.below(100); if (ht_task_scheduler_remove_task(w.s, id)) bad(w, "removed-nonexistent", "%d", id); return; }
    if (w.r.chance(10) && !w.all.empty()) { Task* t = w.all[w.r.below(w.all.size())].get(); if (!t->alive) { if (ht_task_scheduler_remove_task(w.s, t->id)) bad(w, "removed-twice", "%d", t->id); return; } }
    Task* t = w.any(); if (!t) return;
    if (!ht_task_scheduler_remove_task(w.s, t->id)) bad(w, "remove-refused", "task %d exists", t->id);
    t->alive = false; if (w.in_tick) w.removed_inside++; w.h.add(7);
}
static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t c = a % b; a = b; b = c; } return a; }
static void period(World& w) { uint64_t g = 0; for (auto& t : w.all) if (t->alive) g = gcd(g, t->period); uint64_t p = ht_task_scheduler_get_optimal_tick_period(w.s); if (p != g) bad(w, "wrong-tick-period", "%" PRIu64 " instead of %" PRIu64, p, g); }
static HT_Boolean run_task(void* ud) {
    Task* t = (Task*)ud; World& w = *t->w; 
    if (!w.in_tick) bad(w, "run-outside-tick", "task %d", t->id);
    if (!t->alive) bad(w, "ran-after-removal", "task %d", t->id);
    if (t->due > g_now) bad(w, "ran-too-early", "task %d due %" PRIu64, t->id, t->due);
    if (t->runs_this_tick++) bad(w, "ran-twice", "task %d", t->id);
    t->runs++; w.ran++; w.h.add((uint64_t)t->id);
    if (w.running) bad(w, "nested-run", "task %d", t->id);
    w.running = t;
    uint64_t due0 = t->due;
    if (w.many && !w.r.chance(1)) { t->due = t->ignore ? due0 + t->period : g_now + t->period; w.running = nullptr; return HT_TRUE; }
    if (w.r.chance(25)) g_now += w.r.below(w.r.chance(20) ? 2000 : 60);
    if (w.r.chance(8)) schedule(w);
    if (w.r.chance(8)) remove_any(w);
    if (w.r.chance(3) && t->alive) { if (!ht_task_scheduler_remove_task(w.s, t->id)) bad(w, "remove-refused", "self %d", t->id); t->alive = false; w.removed_inside++; }
    if (w.r.chance(5)) period(w);
    bool again = !w.r.chance(8);
    if (!again) t->alive = false;
    t->due = t->ignore ? due0 + t->period : g_now + t->period;
    w.running = nullptr;
    return again ? HT_TRUE : HT_FALSE;
}
template <class T> static void unit(Rng& r, const char* type, uint64_t max) {
    // plain values and expressions, as large as the type (or the duration) can hold
    uint64_t top = max < 9000000000ull ? max : 9000000000ull; T a = (T)(r.chance(30) ? r.below(100) : r.below(top / 2 + 1)), b = (T)r.below(r.chance(50) ? 10 : top / 2 + 1); bool c = r.chance(50);
    uint64_t sum = (uint64_t)a + (uint64_t)b, pick = c ? (uint64_t)a : (uint64_t)b;
    struct { const char* what; uint64_t got, want; } v[] = {
        {"HT_DUR_NS(x)", (uint64_t)HT_DUR_NS(a), (uint64_t)a}, {"HT_DUR_US(x)", (uint64_t)HT_DUR_US(a), (uint64_t)a * 1000}, {"HT_DUR_MS(x)", (uint64_t)HT_DUR_MS(a), (uint64_t)a * 1000000}, {"HT_DUR_S(x)", (uint64_t)HT_DUR_S(a), (uint64_t)a * 1000000000},
        {"HT_DUR_US(x+y)", (uint64_t)HT_DUR_US(a + b), sum * 1000}, {"HT_DUR_MS(x+y)", (uint64_t)HT_DUR_MS(a + b), sum * 1000000}, {"HT_DUR_S(x+y)", (uint64_t)HT_DUR_S(a + b), sum * 1000000000},
        {"HT_DUR_S(c?x:y)", (uint64_t)HT_DUR_S(c ? a : b), pick * 1000000000}, {"HT_DUR_US(c?x:y)", (uint64_t)HT_DUR_US(c ? a : b), pick * 1000}, {"HT_DUR_NS(x+y)*3", (uint64_t)(HT_DUR_NS(a + b) * 3ull), sum * 3}};
    for (auto& e : v) if (e.got != e.want) violation("duration-conversion", "%s of %s is %" PRIu64 ", not %" PRIu64 " (x=%" PRIu64 " y=%" PRIu64 ")", e.what, type, e.got, e.want, (uint64_t)a, (uint64_t)b);
    stat("durations_converted", sizeof v / sizeof v[0]);
}
static void durations(uint64_t seed) {
    Rng r(seed);
    for (int i = 0; i < 200 && !violation_count(); i++) {
        unit<int>(r, "int", 2147483647u); unit<unsigned>(r, "unsigned", 4294967295u); unit<long>(r, "long", ~0ull >> 1); unit<uint64_t>(r, "uint64_t", ~0ull); unit<short>(r, "short", 32767); unit<unsigned char>(r, "unsigned char", 255); unit<uint32_t>(r, "uint32_t", 4294967295u); unit<int64_t>(r, "int64_t", ~0ull >> 1);
    }
}
int main(int argc, char** argv) {
    Args a(argc, argv); durations(a.seed);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        World w(a.seed * 99991 + cn); w.no = cn; g_now = w.r.chance(20) ? 0 : w.r.below(1ull << 50);
        HT_ErrorCode err; w.s = ht_task_scheduler_create(&err); if (!w.s) { violation("create-failed", "-"); break; }
        unsigned steps = (unsigned)w.r.range(10, 120);
        w.many = a.num("many", 0) && cn == 0; if (w.many) { steps = 25; stat("worlds_of_65530_tasks_and_more"); unsigned n = (unsigned)w.r.range(65530, 66500); for (unsigned i = 0; i < n; i++) schedule(w); }
        else if (w.r.chance(30)) { unsigned n = (unsigned)w.r.below(80); for (unsigned i = 0; i < n; i++) schedule(w); }
        for (unsigned i = 0; i < steps && violation_count() < 5; i++) {
            if (w.r.chance(12)) schedule(w);
            if (w.r.chance(6)) remove_any(w);
            if (w.r.chance(15)) period(w);
            if (w.r.chance(80)) { Task* t = w.any(); uint64_t d = w.r.below(120); if (t && t->due > g_now && w.r.chance(40)) { d = t->due - g_now; unsigned k = (unsigned)w.r.below(3); if (k == 0 && d) d--; if (k == 2) d++; if (d > 100000 && w.r.chance(90)) d = w.r.below(100); } g_now += d; }
            // tick
            w.ticks++; w.tick_start = g_now; std::vector<std::pair<Task*, uint64_t>> due; for (auto& t : w.all) { t->runs_this_tick = 0; if (t->alive && t->due <= g_now) due.push_back({t.get(), t->due}); }
            w.in_tick = true; ht_task_scheduler_tick(w.s); w.in_tick = false;
            for (auto& d : due) if (!d.first->runs_this_tick && d.first->alive) bad(w, "due-task-not-run", "task %d was due at %" PRIu64 ", tick began at %" PRIu64 " (%zu due)", d.first->id, d.second, w.tick_start, due.size());
        }
        period(w);
        ht_task_scheduler_destroy(w.s);
        if (w.ran >= 3) sig(w.h.h);
        stat("cases"); stat("ticks", w.ticks); stat("task_runs_checked", w.ran); stat("removed_within_a_task", w.removed_inside);
        if (cn < 2) sample("tasks=%zu ticks=%" PRIu64 " runs=%" PRIu64 " removed_within_tasks=%" PRIu64, w.all.size(), w.ticks, w.ran, w.removed_inside);
    }
    done(); return 0;
}
