// P10: the same events written in both byte orders (and with a switch in mid-stream) decode alike.
#include "hv_parse.hpp"
#include "hv_stream.hpp"
#include <hawktracer/init.h>
#include <hawktracer/core_events.h>
#include <hawktracer/system_info.h>
#include <hawktracer/timeline_listener.h>
using namespace hv;
static const unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
static std::vector<uint8_t> g_meta;
static void sink(TEventPtr e, size_t n, HT_Boolean, void*) { g_meta.insert(g_meta.end(), e, e + n); }
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_init(0, NULL);
    uint16_t one = 1; unsigned native = *(uint8_t*)&one ? 0 : 1;
    if (ht_system_info_get_endianness() != (native ? HT_ENDIANNESS_BIG : HT_ENDIANNESS_LITTLE)) violation("wrong-declared-order", "library reports %d", ht_system_info_get_endianness());
    ht_timeline_listener_push_metadata(sink, NULL, HT_TRUE);
    if (g_meta.size() < 21 || g_meta[0] || g_meta[1] || g_meta[2] || g_meta[3] || g_meta[20] != native) violation("wrong-declared-order", "stream starts %s", hex(g_meta.data(), g_meta.size(), 24).c_str());
    { Decoder d(g_meta.data(), g_meta.size(), UC); d.all(); if (!d.ok || d.pos != g_meta.size()) violation("metadata-malformed", "%s", d.err.c_str()); }
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        uint64_t seed = a.seed * 104729 + cn;
        Rng r0(seed); size_t nk = r0.range(1, 6), ne = r0.range(1, 30), sw = r0.below(ne + 1); bool rest_desc = r0.chance(30);
        std::vector<std::string> want[2]; std::vector<uint8_t> data[4];
        for (int order = 0; order < 4; order++) { // 0 little, 1 big, 2 little then big, 3 big then little
            Rng r(seed ^ 0x55); Writer w; w.big = order & 1; w.endianness(order & 1);
            auto ks = random_klasses(r, nk, 3); std::vector<DEvent> evs;
            size_t described = rest_desc ? 1 : nk;
            for (size_t i = 0; i < described; i++) write_klass(w, ks, ks[i], UC);
            for (size_t i = 0; i < ne; i++) {
                if (i == sw) {
                    if (order >= 2) { unsigned to = !(order & 1); w.endianness(to); w.big = to; }
                    for (; described < nk; described++) write_klass(w, ks, ks[described], UC);
                }
                if (r.chance(6)) { DEvent e; e.klass = 1; e.klass_name = "HT_Event"; e.ts = r.interesting(); e.id = r.interesting(); w.head(1, e.ts, e.id); evs.push_back(e); continue; }
                evs.push_back(write_event(w, ks, ks[r.below(described)], r, 20));
            }
            data[order] = w.out;
            if (order == 0) for (auto& e : evs) { want[0].push_back(canon_nested(e)); want[1].push_back(canon_flat(e)); }
            for (int flat = 0; flat < 2; flat++) {
                Parsed p = parse_bytes(w.out, flat != 0);
                std::vector<std::string> got;
                for (auto& s : p.events) if (s.compare(0, 13, "HT_Endianness") && s.compare(0, 13, "HT_EventKlass")) got.push_back(s);
                if (got.size() != want[flat].size()) { violation("event-count", "case %llu order %d flat %d: %zu of %zu events", (unsigned long long)cn, order, flat, got.size(), want[flat].size()); }
                for (size_t i = 0; i < got.size() && i < want[flat].size(); i++) if (got[i] != want[flat][i]) { violation("value-mismatch", "case %llu order %d flat %d event %zu: %s instead of %s", (unsigned long long)cn, order, flat, i, got[i].substr(0, 500).c_str(), want[flat][i].substr(0, 500).c_str()); break; }
                stat("events_compared", got.size());
            }
        }
        Hash h; h.add(data[0].data(), data[0].size()); if (data[0] != data[1]) sig(h.h);
        if (cn < 2) sample("%zu events, switch at %zu; first: %s", ne, sw, want[1][0].substr(0, 200).c_str());
        stat("cases");
    }
    ht_deinit(); done(); return 0;
}
