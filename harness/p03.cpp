// P03: library-written streams of generated classes, read back by the real parser.
#include "hv_parse.hpp"
#include "gen.h"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/timeline_listener.h>
#include <deque>
using namespace hv;

struct Gen {
    Rng* r; std::deque<std::string> keep;
    void base(std::vector<DVal>& v) { DVal b; b.name = "base"; b.type = "HT_Event"; b.dtype = DT_STRUCT; b.size = 0; b.u = 0; v.push_back(b); }
    void sub(const char* type, std::vector<DVal>& w, std::vector<DVal>& v) { DVal b; b.name = "base"; b.type = type; b.dtype = DT_STRUCT; b.size = 0; b.u = 0; b.sub = w; v.push_back(b); }
    template <class T> void num(T& f, const char* name, const char* type, std::vector<DVal>& v) {
        f = (T)r->interesting();
        DVal d; d.name = name; d.type = type; d.size = sizeof(T); d.dtype = (T)-1 < (T)1 ? DT_INT : DT_UINT; d.u = (T)-1 < (T)1 ? (uint64_t)(int64_t)f : (uint64_t)f;
        v.push_back(d);
    }
    const char* str(const char* name, const char* type, std::vector<DVal>& v) {
        DVal d; d.name = name; d.type = type; d.size = sizeof(char*); d.dtype = DT_STRING; d.u = 0;
        unsigned k = r->below(20);
        const char* p;
        if (k == 0) { p = nullptr; stat("missing_strings"); }
        else {
            size_t len = k == 1 ? 0 : k == 2 ? r->range(30, 34) : k == 3 ? r->range(62, 66) : k == 4 ? r->below(3000) : r->below(24);
            std::string s(len, 'x'); for (auto& c : s) do c = (char)r->below(256); while (!c);
            keep.push_back(s); p = keep.back().c_str(); d.s = s;
        }
        v.push_back(d); return p;
    }
};
struct GenKlass { const char* name; const char* base; size_t size; unsigned nf; bool clash; HT_EventKlassId (*reg)(); HT_EventKlass* (*get)(); void (*fill)(void*, Gen&, std::vector<DVal>&); };
#include "gen_fill.inc"
static const size_t NK = sizeof g_klasses / sizeof g_klasses[0];

static std::vector<uint8_t> g_out;
static void sink(TEventPtr e, size_t n, HT_Boolean ser, void*) { if (!ser) violation("wrong-mode-flag", "unserialised batch on a serialised timeline"); g_out.insert(g_out.end(), e, e + n); }

int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_init(0, NULL);
    for (size_t i = 0; i < NK; i++) {
        HT_EventKlassId id = g_klasses[i].reg();
        if (id != g_klasses[i].get()->klass_id) violation("id-mismatch", "class %s registered as %u but holds %u", g_klasses[i].name, id, g_klasses[i].get()->klass_id);
    }
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 7919 + cn);
        g_out.clear();
        Gen g; g.r = &r;
        ht_timeline_listener_push_metadata(sink, NULL, HT_TRUE);
        size_t meta = g_out.size();
        HT_Timeline* t = ht_timeline_create(r.chance(30) ? 0 : r.below(2000), HT_FALSE, HT_TRUE, NULL, NULL);
        ht_timeline_register_listener(t, sink, NULL);
        std::vector<DEvent> exp; std::set<size_t> used; std::vector<bool> clash;
        size_t ne = r.range(1, 40);
        for (size_t i = 0; i < ne; i++) {
            size_t k = r.below(NK); used.insert(k);
            std::vector<uint64_t> mem((g_klasses[k].size + 7) / 8, 0);
            HT_Event* ev = (HT_Event*)mem.data();
            DEvent d; 
            g_klasses[k].fill(mem.data(), g, d.vals);
            ev->klass = g_klasses[k].get(); ev->timestamp = r.interesting(); ev->id = r.interesting();
            d.klass = ev->klass->klass_id; d.klass_name = g_klasses[k].name; d.ts = ev->timestamp; d.id = ev->id;
            size_t announced = ev->klass->get_size(ev);
            std::vector<uint8_t> buf(announced + 64, 0xA5);
            size_t wrote = ev->klass->serialize(ev, buf.data());
            size_t tail = buf.size(); while (tail > 0 && buf[tail - 1] == 0xA5) tail--;
            if (announced != wrote || tail > announced) violation("size-mismatch", "class %s: announces %zu bytes, serialise returns %zu and touches %zu", g_klasses[k].name, announced, wrote, tail);
            ht_timeline_push_event(t, ev);
            exp.push_back(d); clash.push_back(g_klasses[k].clash);
            stat("events_pushed");
        }
        ht_timeline_destroy(t);
        for (int flat = 0; flat < 2; flat++) {
            std::vector<std::string> types; hp::KlassRegister reg;
            Parsed p = parse_bytes(g_out, flat != 0, nullptr, &reg);
            Decoder md(g_out.data(), meta, HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); md.all();
            if (!md.ok || md.pos != meta) violation("metadata-malformed", "independent decoder: %s at %zu of %zu", md.err.c_str(), md.pos, meta);
            if (p.events.size() != md.events.size() + exp.size()) { violation("event-count", "case %llu flat %d: parser reported %zu events, %zu metadata + %zu pushed", (unsigned long long)cn, flat, p.events.size(), md.events.size(), exp.size()); }
            for (size_t i = 0; i < exp.size() && md.events.size() + i < p.events.size(); i++) {
                if (flat && clash[i]) { stat("clashing_flat_skipped"); continue; }
                std::string w = flat ? canon_flat(exp[i]) : canon_nested(exp[i]); const std::string& got = p.events[md.events.size() + i];
                if (w != got) { violation("value-mismatch", "case %llu flat %d event %zu: expected %s got %s", (unsigned long long)cn, flat, i, w.substr(0, 1200).c_str(), got.substr(0, 1200).c_str()); break; }
                if (flat && p.ts[md.events.size() + i] != exp[i].ts) violation("timestamp-mismatch", "event %zu: get_timestamp() is %" PRIu64 " expected %" PRIu64, i, p.ts[md.events.size() + i], exp[i].ts);
                stat("events_compared");
            }
            // the reader's class table carries the declared names, types and signs
            for (size_t k : used) {
                auto kl = reg.get_klass(g_klasses[k].get()->klass_id);
                if (!kl || kl->get_name() != g_klasses[k].name || kl->get_fields().size() != g_klasses[k].nf + 1) { violation("class-mismatch", "class %s read back as %s with %zu fields (declared %u + base)", g_klasses[k].name, kl ? kl->get_name().c_str() : "(none)", kl ? kl->get_fields().size() : 0, g_klasses[k].nf); continue; }
                if (kl->get_fields()[0]->get_type_name() != g_klasses[k].base) violation("class-mismatch", "class %s: base read back as %s", g_klasses[k].name, kl->get_fields()[0]->get_type_name().c_str());
                if (cn) continue;
                std::vector<DVal> v; Gen g2; g2.r = &r; std::vector<uint64_t> mem((g_klasses[k].size + 7) / 8, 0); g_klasses[k].fill(mem.data(), g2, v);
                for (size_t i = 0; i < v.size(); i++) if (v[i].name != kl->get_fields()[i]->get_name() || v[i].type != kl->get_fields()[i]->get_type_name()) violation("class-mismatch", "class %s field %zu: declared %s %s, read back %s %s", g_klasses[k].name, i, v[i].type.c_str(), v[i].name.c_str(), kl->get_fields()[i]->get_type_name().c_str(), kl->get_fields()[i]->get_name().c_str());
            }
        }
        Hash h; h.add(g_out.data(), g_out.size());
        if (used.size() >= 3) sig(h.h);
        if (cn == 0) sample("%zu events of %zu classes, %zu bytes, first: %s", exp.size(), used.size(), g_out.size() - meta, canon_flat(exp[0]).substr(0, 300).c_str());
        stat("cases"); stat("bytes", g_out.size());
    }
    ht_deinit(); done(); return 0;
}
