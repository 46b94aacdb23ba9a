// P01: what listeners receive versus what was pushed, over random histories.
#include "hv_ev.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
using namespace hv;

struct Case;
struct Listener { Case* c; unsigned idx; size_t start; size_t got = 0; size_t calls = 0; uint64_t magic = 0xfeedfacecafef00dull; };
struct Case {
    uint64_t no; size_t cap; bool ser;
    std::vector<Bytes> wire;           // expected, per pushed event
    std::vector<size_t> raw;           // struct size of each pushed event
    std::vector<std::unique_ptr<Listener>> ls;
    size_t in_progress_max = 0;
    size_t pushed() const { return wire.size(); }
};
static void cb(TEventPtr events, size_t size, HT_Boolean serialized, void* ud) {
    Listener* l = (Listener*)ud;
    if (l->magic != 0xfeedfacecafef00dull) { violation("wrong-user-data", "listener callback got foreign user data"); return; }
    Case& c = *l->c;
    l->calls++;
    if ((serialized != 0) != c.ser) violation("wrong-mode-flag", "case %llu: serialized flag %d on a %s timeline", (unsigned long long)c.no, serialized, c.ser ? "serialised" : "raw");
    if (size == 0) { stat("empty_batches"); return; }
    size_t pos = 0, n = 0;
    while (pos < size) {
        size_t i = l->start + l->got;
        if (i >= c.pushed()) { violation("extra-event", "case %llu cap %zu ser %d listener %u: %zu bytes more than pushed (pushed %zu events)", (unsigned long long)c.no, c.cap, c.ser, l->idx, size - pos, c.pushed()); return; }
        if (c.ser) {
            const Bytes& w = c.wire[i];
            if (size - pos < w.size()) { violation("partial-event", "case %llu cap %zu listener %u: event %zu of %zu bytes cut to %zu in a batch of %zu", (unsigned long long)c.no, c.cap, l->idx, i, w.size(), size - pos, size); return; }
            if (memcmp(events + pos, w.data(), w.size())) { violation("corrupt-or-reordered", "case %llu cap %zu listener %u: event %zu bytes %s expected %s", (unsigned long long)c.no, c.cap, l->idx, i, hex(events + pos, w.size()).c_str(), hex(w.data(), w.size()).c_str()); return; }
            pos += w.size();
        } else {
            if (size - pos < c.raw[i]) { violation("partial-event", "case %llu cap %zu listener %u: raw event %zu of %zu bytes cut to %zu", (unsigned long long)c.no, c.cap, l->idx, i, c.raw[i], size - pos); return; }
            alignas(16) uint8_t tmp[512]; memcpy(tmp, events + pos, c.raw[i]);
            Bytes b; if (!oracle_serialize((HT_Event*)tmp, b) || b != c.wire[i]) { violation("corrupt-or-reordered", "case %llu cap %zu listener %u: raw event %zu differs", (unsigned long long)c.no, c.cap, l->idx, i); return; }
            pos += c.raw[i];
        }
        l->got++; n++;
        stat("events_observed");
    }
    if (size > c.cap && n > 1) violation("batch-over-capacity", "case %llu: batch of %zu bytes holds %zu events, capacity %zu", (unsigned long long)c.no, size, n, c.cap);
    if (size > c.cap) stat("oversized_events");
    stat("batches");
}
static void add_listener(Case& c, HT_Timeline* t) {
    auto l = std::make_unique<Listener>(); l->c = &c; l->idx = c.ls.size();
    l->start = c.ls.empty() ? 0 : c.ls[0]->start + c.ls[0]->got;
    if (ht_timeline_register_listener(t, cb, l.get()) != HT_ERR_OK) violation("register-failed", "case %llu: listener %u refused", (unsigned long long)c.no, l->idx);
    c.ls.push_back(std::move(l));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_init(0, NULL); hv_register_all();
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 1000003 + cn);
        Case c; c.no = cn; c.ser = r.chance(60);
        size_t style = r.below(6);
        switch (style) {
        case 0: c.cap = 0; break;
        case 1: c.cap = r.below(80); break;
        case 2: c.cap = r.range(20, 400); break;
        case 3: c.cap = 33 * r.range(1, 8) + r.below(3) - 1; break; // near exact multiples of one event
        case 4: c.cap = r.range(100, 180); break;                  // around the on-stack scratch threshold
        default: c.cap = r.below(5000);
        }
        HT_ErrorCode err = HT_ERR_UNKNOWN;
        HT_Timeline* t = ht_timeline_create(c.cap, r.chance(50), c.ser, NULL, &err);
        if (!t || err != HT_ERR_OK) { violation("create-failed", "capacity %zu err %d", c.cap, err); break; }
        size_t nl = r.chance(15) ? r.range(10, 70) : r.range(1, 3);
        size_t init_l = r.range(1, nl);
        for (size_t i = 0; i < init_l; i++) add_listener(c, t);
        std::vector<std::unique_ptr<AnyEvent>> evs;
        size_t nops = r.range(1, 60);
        Hash h; h.add(c.cap); h.add(c.ser); h.add(nl);
        for (size_t op = 0; op < nops && violation_count() < 5; op++) {
            unsigned k = r.below(100);
            if (k < 78) {
                evs.emplace_back(new AnyEvent); AnyEvent& e = *evs.back();
                size_t want = 0;
                if (r.chance(35) && c.ser) want = c.cap + r.below(5) - 2;        // serialised size near the capacity
                else if (r.chance(20) && c.ser) want = r.range(126, 131);          // near the 128-byte scratch buffer
                else if (style == 3 && r.chance(70)) want = 33;
                if (want > 6000) want = 6000;
                if (want && want < 33) want = 33;
                e.randomize(r, want);
                c.wire.push_back(e.wire()); c.raw.push_back(struct_size(e.ev()));
                Bytes before(e.mem, e.mem + sizeof e.mem);
                ht_timeline_push_event(t, e.ev());
                if (memcmp(before.data(), e.mem, sizeof e.mem)) violation("event-modified", "case %llu: pushing changed the caller's event", (unsigned long long)cn);
                h.add(c.wire.back().size());
                stat("events_pushed");
            } else if (k < 90) {
                ht_timeline_flush(t); stat("flushes"); h.add(0xf1);
                for (auto& l : c.ls) if (l->start + l->got != c.pushed()) violation("lost-at-flush", "case %llu cap %zu ser %d listener %u/%zu: %zu of %zu events after flush", (unsigned long long)cn, c.cap, c.ser, l->idx, c.ls.size(), l->start + l->got, c.pushed());
            } else if (c.ls.size() < nl) { add_listener(c, t); h.add(0xa0); }
        }
        ht_timeline_destroy(t);
        for (auto& l : c.ls) if (l->start + l->got != c.pushed()) violation("lost-at-destroy", "case %llu cap %zu ser %d listener %u/%zu: %zu of %zu events after destroy", (unsigned long long)cn, c.cap, c.ser, l->idx, c.ls.size(), l->start + l->got, c.pushed());
        stat("cases"); stat_max("max_listeners", c.ls.size());
        if (c.pushed() >= 2 && c.ls[0]->calls >= 2) sig(h.h);
        if (cn < 2) sample("capacity=%zu serialised=%d listeners=%zu pushed=%zu batches=%zu first_sizes=%zu,%zu", c.cap, c.ser, c.ls.size(), c.pushed(), c.ls[0]->calls, c.pushed() ? c.wire[0].size() : 0, c.pushed() > 1 ? c.wire[1].size() : 0);
    }
    ht_deinit();
    done();
    return 0;
}
