/* Event classes used by the harnesses (declared with the library's own macros). */
#ifndef HV_EVENTS_H
#define HV_EVENTS_H
#include <hawktracer/core_events.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(HvTiny, HT_Event, (INTEGER, uint8_t, a))
HT_DECLARE_EVENT_KLASS(HvSeq, HT_Event, (INTEGER, uint32_t, src), (INTEGER, uint64_t, seq), (STRING, const char*, text))
HT_DECLARE_EVENT_KLASS(HvMix, HT_Event, (INTEGER, int8_t, a), (INTEGER, uint16_t, b), (STRING, const char*, s1), (INTEGER, int32_t, c), (STRING, const char*, s2), (INTEGER, int64_t, d), (INTEGER, int16_t, e))
HT_DECLARE_EVENT_KLASS(HvDerived, HvMix, (INTEGER, uint32_t, x), (STRING, const char*, s3))
HT_DECLARE_EVENT_KLASS(HvBig, HT_Event, (INTEGER, uint64_t, f0), (INTEGER, uint64_t, f1), (INTEGER, uint64_t, f2), (INTEGER, uint64_t, f3), (INTEGER, uint64_t, f4), (INTEGER, uint64_t, f5), (INTEGER, uint64_t, f6), (INTEGER, uint64_t, f7), (INTEGER, uint64_t, f8), (INTEGER, uint64_t, f9), (INTEGER, uint64_t, f10), (INTEGER, uint64_t, f11), (INTEGER, uint64_t, f12), (INTEGER, uint64_t, f13), (INTEGER, uint64_t, f14), (INTEGER, uint64_t, f15))
HT_DECLARE_EVENT_KLASS(HvCall, HT_CallstackBaseEvent, (INTEGER, uint64_t, tag), (INTEGER, int32_t, x), (STRING, const char*, label))
HT_DECLARE_EVENT_KLASS(HvCallSmall, HT_CallstackBaseEvent, (INTEGER, uint8_t, tag))
HT_DECLARE_EVENT_KLASS(HvCallWide, HT_CallstackBaseEvent, (INTEGER, uint64_t, tag), (INTEGER, uint64_t, f1), (INTEGER, uint64_t, f2), (INTEGER, uint64_t, f3), (INTEGER, uint64_t, f4), (INTEGER, uint64_t, f5), (INTEGER, uint64_t, f6), (INTEGER, uint64_t, f7), (INTEGER, uint64_t, f8), (INTEGER, uint64_t, f9), (INTEGER, uint64_t, f10), (INTEGER, uint64_t, f11), (INTEGER, uint64_t, f12), (INTEGER, uint64_t, f13), (INTEGER, uint64_t, f14))
HT_DECLS_END
static inline void hv_register_all(void)
{
    HT_REGISTER_EVENT_KLASS(HvTiny);
    HT_REGISTER_EVENT_KLASS(HvSeq);
    HT_REGISTER_EVENT_KLASS(HvMix);
    HT_REGISTER_EVENT_KLASS(HvDerived);
    HT_REGISTER_EVENT_KLASS(HvBig);
    HT_REGISTER_EVENT_KLASS(HvCall);
    HT_REGISTER_EVENT_KLASS(HvCallSmall);
    HT_REGISTER_EVENT_KLASS(HvCallWide);
}
#endif
