// Random events of the harness classes, with an independent serialiser (the oracle's
// own idea of the wire format: docs/design/htdump_format.md).
#pragma once
#include "hv.hpp"
#include "hv_events.h"
#include <memory>
#include <hawktracer/timeline.h>

namespace hv {
typedef std::vector<uint8_t> Bytes;
template <class T> inline void put(Bytes& b, T v) { uint8_t t[sizeof(T)]; memcpy(t, &v, sizeof v); b.insert(b.end(), t, t + sizeof v); }
inline void puts0(Bytes& b, const char* s) { if (!s) s = ""; b.insert(b.end(), s, s + strlen(s) + 1); }
inline void put_base(Bytes& b, const HT_Event* e) { put<uint32_t>(b, e->klass->klass_id); put<uint64_t>(b, e->timestamp); put<uint64_t>(b, e->id); }

// Serialises an in-memory event of a known class (independent of the library's serialiser).
inline bool oracle_serialize(const HT_Event* e, Bytes& b) {
    HT_EventKlass* k = e->klass;
    put_base(b, e);
    auto mix = [&](const HvMix* m) { put<int8_t>(b, m->a); put<uint16_t>(b, m->b); puts0(b, m->s1); put<int32_t>(b, m->c); puts0(b, m->s2); put<int64_t>(b, m->d); put<int16_t>(b, m->e); };
    auto cs = [&](const HT_CallstackBaseEvent* c) { put<uint64_t>(b, c->duration); put<uint32_t>(b, c->thread_id); };
    if (k == HT_EVENT_KLASS_GET(HT_Event)) return true;
    if (k == HT_EVENT_KLASS_GET(HvTiny)) { put<uint8_t>(b, ((HvTiny*)e)->a); return true; }
    if (k == HT_EVENT_KLASS_GET(HvSeq)) { auto s = (HvSeq*)e; put<uint32_t>(b, s->src); put<uint64_t>(b, s->seq); puts0(b, s->text); return true; }
    if (k == HT_EVENT_KLASS_GET(HvMix)) { mix((HvMix*)e); return true; }
    if (k == HT_EVENT_KLASS_GET(HvDerived)) { mix((HvMix*)e); auto d = (HvDerived*)e; put<uint32_t>(b, d->x); puts0(b, d->s3); return true; }
    if (k == HT_EVENT_KLASS_GET(HvBig)) { const uint64_t* f = &((HvBig*)e)->f0; for (int i = 0; i < 16; i++) put<uint64_t>(b, f[i]); return true; }
    if (k == HT_EVENT_KLASS_GET(HT_CallstackBaseEvent)) { cs((HT_CallstackBaseEvent*)e); return true; }
    if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) { cs((HT_CallstackBaseEvent*)e); put<uint64_t>(b, ((HT_CallstackIntEvent*)e)->label); return true; }
    if (k == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)) { cs((HT_CallstackBaseEvent*)e); puts0(b, ((HT_CallstackStringEvent*)e)->label); return true; }
    if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)) { auto m = (HT_StringMappingEvent*)e; put<uint64_t>(b, m->identifier); puts0(b, m->label); return true; }
    if (k == HT_EVENT_KLASS_GET(HvCall)) { cs((HT_CallstackBaseEvent*)e); auto c = (HvCall*)e; put<uint64_t>(b, c->tag); put<int32_t>(b, c->x); puts0(b, c->label); return true; }
    if (k == HT_EVENT_KLASS_GET(HvCallSmall)) { cs((HT_CallstackBaseEvent*)e); put<uint8_t>(b, ((HvCallSmall*)e)->tag); return true; }
    if (k == HT_EVENT_KLASS_GET(HvCallWide)) { cs((HT_CallstackBaseEvent*)e); const uint64_t* f = &((HvCallWide*)e)->tag; for (int i = 0; i < 15; i++) put<uint64_t>(b, f[i]); return true; }
    return false;
}
inline size_t struct_size(const HT_Event* e) {
    HT_EventKlass* k = e->klass;
#define HV_SZ(T) if (k == HT_EVENT_KLASS_GET(T)) return sizeof(T);
    HV_SZ(HT_Event) HV_SZ(HvTiny) HV_SZ(HvSeq) HV_SZ(HvMix) HV_SZ(HvDerived) HV_SZ(HvBig) HV_SZ(HT_CallstackBaseEvent) HV_SZ(HT_CallstackIntEvent)
    HV_SZ(HT_CallstackStringEvent) HV_SZ(HT_StringMappingEvent) HV_SZ(HvCall) HV_SZ(HvCallSmall) HV_SZ(HvCallWide)
    HV_SZ(HT_EndiannessInfoEvent) HV_SZ(HT_EventKlassInfoEvent) HV_SZ(HT_EventKlassFieldInfoEvent) HV_SZ(HT_SystemInfoEvent)
#undef HV_SZ
    return 0;
}
inline std::string random_text(Rng& r, size_t len) {
    std::string s(len, 'x');
    for (auto& c : s) { do c = (char)r.below(256); while (!c); }
    return s;
}
// A random event with stable storage for its strings. want = serialised size to aim at (0: any).
struct AnyEvent {
    alignas(16) uint8_t mem[512];
    std::string s1, s2, s3;
    HT_Event* ev() { return (HT_Event*)mem; }
    Bytes wire() { Bytes b; oracle_serialize(ev(), b); return b; }
    template <class T> T* as(HT_EventKlass* k) { memset(mem, 0, sizeof mem); ((HT_Event*)mem)->klass = k; return (T*)mem; }
    void seq(uint32_t src, uint64_t n, const std::string& text) {
        s1 = text;
        HvSeq* e = as<HvSeq>(HT_EVENT_KLASS_GET(HvSeq)); e->src = src; e->seq = n; e->text = s1.c_str();
    }
    void randomize(Rng& r, size_t want = 0) {
        switch (want ? 1 : r.below(7)) {
        case 0: as<HvTiny>(HT_EVENT_KLASS_GET(HvTiny))->a = (uint8_t)r.next(); break;
        case 1: { size_t l = want > 33 ? want - 33 : want ? 0 : r.below(r.chance(10) ? 600 : 40); seq((uint32_t)r.interesting(), r.interesting(), random_text(r, l)); break; }
        case 2: case 3: {
            bool d = r.chance(50);
            s1 = random_text(r, r.below(30)); s2 = random_text(r, r.below(30)); s3 = random_text(r, r.below(r.chance(20) ? 300 : 30));
            HvMix* m = d ? &as<HvDerived>(HT_EVENT_KLASS_GET(HvDerived))->base : as<HvMix>(HT_EVENT_KLASS_GET(HvMix));
            m->a = (int8_t)r.interesting(); m->b = (uint16_t)r.interesting(); m->s1 = s1.c_str(); m->c = (int32_t)r.interesting(); m->s2 = s2.c_str(); m->d = (int64_t)r.interesting(); m->e = (int16_t)r.interesting();
            if (d) { ((HvDerived*)mem)->x = (uint32_t)r.interesting(); ((HvDerived*)mem)->s3 = s3.c_str(); }
            break; }
        case 4: { uint64_t* f = &as<HvBig>(HT_EVENT_KLASS_GET(HvBig))->f0; for (int i = 0; i < 16; i++) f[i] = r.interesting(); break; }
        case 5: as<HT_Event>(HT_EVENT_KLASS_GET(HT_Event)); break;
        default: { s1 = random_text(r, r.below(50)); auto c = as<HT_CallstackStringEvent>(HT_EVENT_KLASS_GET(HT_CallstackStringEvent)); c->label = s1.c_str(); ((HT_CallstackBaseEvent*)c)->duration = r.interesting(); ((HT_CallstackBaseEvent*)c)->thread_id = (uint32_t)r.next(); }
        }
        ev()->timestamp = r.interesting(); ev()->id = r.interesting();
    }
    AnyEvent() {}
    AnyEvent(const AnyEvent&) = delete;
};
} // namespace hv
