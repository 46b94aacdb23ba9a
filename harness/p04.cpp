// P04: dump files against the record of what was delivered. mode=seq | conc
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <dirent.h>
#include <hawktracer/init.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/timeline.h>
using namespace hv;
static Bytes slurp(const std::string& p) { Bytes b; FILE* f = fopen(p.c_str(), "rb"); if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
// Descriptors of this process that refer to the given file (the sanitizer's own background thread opens others now and then).
static size_t open_fds(const std::string& path) {
    char real[4096]; std::string want = realpath(path.c_str(), real) ? real : path; size_t n = 0; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) { char t[4096]; ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), t, sizeof t - 1); if (k > 0) { t[k] = 0; if (want == t) n++; } }
    closedir(d); return n;
}
static unsigned g_uint;
// Length of the stream header and class descriptions at the start of b; 0 if malformed.
static size_t header_len(const Bytes& b, size_t* classes = nullptr, bool* sys = nullptr) {
    Decoder d(b.data(), b.size(), g_uint); DEvent e; size_t end = 0; size_t n = 0; bool first = true;
    while (d.next(e)) {
        if (first && e.klass != 0) return 0;
        first = false;
        if (e.klass == 2) n++;
        bool s = e.klass_name == "HT_SystemInfoEvent";
        if (sys && s) *sys = true;
        if (!(e.klass == 0 || e.klass == 2 || e.klass == 3 || s)) break;
        end = e.end;
    }
    if (classes) *classes = n;
    return end;
}
struct Rec { Bytes b; uint64_t batches = 0; };
static void rec_cb(TEventPtr ev, size_t size, HT_Boolean ser, void* ud) {
    Rec* r = (Rec*)ud; r->batches++;
    if (ser) { r->b.insert(r->b.end(), ev, ev + size); return; }
    for (size_t p = 0; p < size;) { alignas(16) uint8_t tmp[512]; HT_Event* e0 = (HT_Event*)(ev + p); size_t s = struct_size(e0); if (!s || s > sizeof tmp) { violation("harness", "unknown raw event"); return; } memcpy(tmp, ev + p, s); oracle_serialize((HT_Event*)tmp, r->b); p += s; }
}
static bool check_file(const std::string& path, const Bytes& want, uint64_t cn, const char* when) {
    Bytes got = slurp(path); size_t cl = 0; bool sys = false; size_t h = header_len(got, &cl, &sys);
    size_t total; ht_registry_get_event_klasses(&total);
    if (!h || cl != total || !sys) { violation("header-incomplete", "case %" PRIu64 " %s: header %zu bytes, %zu of %zu classes, system info %d, file %zu bytes", cn, when, h, cl, total, sys, got.size()); return false; }
    if (got.size() - h != want.size()) { violation("file-size", "case %" PRIu64 " %s: %zu event bytes in the file, %zu delivered", cn, when, got.size() - h, want.size()); return false; }
    for (size_t i = 0; i < want.size(); i++) if (got[h + i] != want[i]) { violation("file-content", "case %" PRIu64 " %s: byte %zu of %zu is %02x, delivered %02x", cn, when, i, want.size(), got[h + i], want[i]); return false; }
    return true;
}
static void seq_case(uint64_t seed, uint64_t cn, const std::string& dir) {
    Rng r(seed * 7919 + cn); std::string path = dir + "/t" + std::to_string(cn) + ".htdump";
    struct TL { HT_Timeline* t; bool ser; Rec rec; };
    unsigned ntl = r.chance(70) ? 1 : (unsigned)r.range(2, 3); bool any_raw = false;
    std::vector<std::unique_ptr<TL>> tl; Rec all;
    for (unsigned i = 0; i < ntl; i++) { tl.emplace_back(new TL); tl[i]->ser = r.chance(60); any_raw |= !tl[i]->ser; tl[i]->t = ht_timeline_create(r.chance(20) ? 0 : r.below(r.chance(50) ? 300 : 4000), r.chance(50), tl[i]->ser, NULL, NULL); }
    size_t bs = any_raw ? (r.chance(40) ? r.range(1, 64) : r.range(20, 3000)) : r.chance(20) ? 0 : r.chance(30) ? r.range(1, 40) : r.below(6000);
    HT_ErrorCode err = HT_ERR_UNKNOWN; HT_FileDumpListener* l; bool owned = ntl == 1 && r.chance(50), before = r.chance(50);
    if (before) for (auto& t : tl) ht_timeline_register_listener(t->t, rec_cb, &all);
    if (owned) l = ht_file_dump_listener_register(tl[0]->t, path.c_str(), bs, &err);
    else { l = ht_file_dump_listener_create(path.c_str(), bs, r.chance(90) ? &err : (err = HT_ERR_OK, (HT_ErrorCode*)NULL)); if (l) for (auto& t : tl) ht_timeline_register_listener(t->t, ht_file_dump_listener_callback, l); }
    if (!before) for (auto& t : tl) ht_timeline_register_listener(t->t, rec_cb, &all);
    if (!l || err != HT_ERR_OK) { violation("create-failed", "case %" PRIu64 ": buffer %zu error %d", cn, bs, err); for (auto& t : tl) ht_timeline_destroy(t->t); return; }
    Hash h; h.add(bs); h.add(ntl); std::vector<std::unique_ptr<AnyEvent>> evs; unsigned n = (unsigned)r.below(r.chance(10) ? 400 : 60); bool stopped = false; Bytes at_stop; unsigned checks = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned k = (unsigned)r.below(100); auto& t = tl[r.below(ntl)];
        if (k < 80) { evs.emplace_back(new AnyEvent); evs.back()->randomize(r, r.chance(30) ? (r.chance(50) && bs > 33 ? bs - r.below(3) + r.below(3) : r.range(34, 2 * (bs + 40))) : 0); h.add(evs.back()->wire().size()); ht_timeline_push_event(t->t, evs.back()->ev()); }
        else if (k < 90) ht_timeline_flush(t->t);
        else if (k < 98) {
            HT_ErrorCode e = ht_file_dump_listener_flush(l, HT_TRUE); if (e != HT_ERR_OK) violation("flush-error", "case %" PRIu64 ": error %d", cn, e);
            if (!check_file(path, stopped ? at_stop : all.b, cn, "after a flush")) break;
            checks++;
        } else if (k < 99) ht_file_dump_listener_flush(l, HT_FALSE);
        else { if (!stopped) at_stop = all.b; stopped = true; ht_file_dump_listener_stop(l); if (!check_file(path, at_stop, cn, "after stop")) break; checks++; }
    }
    for (auto& t : tl) if (r.chance(70)) ht_timeline_flush(t->t);
    if (r.chance(40)) { if (!stopped) at_stop = all.b; stopped = true; ht_file_dump_listener_stop(l); check_file(path, at_stop, cn, "after stop"); if (r.chance(50)) ht_file_dump_listener_stop(l); if (r.chance(30)) ht_file_dump_listener_flush(l, HT_TRUE); }
    for (auto& t : tl) ht_timeline_destroy(t->t);
    if (!owned) ht_file_dump_listener_destroy(l);
    check_file(path, stopped ? at_stop : all.b, cn, "after destruction");
    size_t f2 = open_fds(path); if (f2 != 0) violation("file-left-open", "case %" PRIu64 ": %zu descriptors of the trace file after destruction", cn, f2);
    unlink(path.c_str());
    stat("cases"); stat("events", evs.size()); stat("bytes_compared", all.b.size()); stat("intermediate_checks", checks); stat_max("max_file_bytes", all.b.size());
    if (all.batches > 1 && evs.size() > 1) sig(h.h);
    if (cn < 2) sample("buffer=%zu timelines=%u raw=%d events=%zu batches=%" PRIu64 " bytes=%zu stopped=%d", bs, ntl, any_raw, evs.size(), all.batches, all.b.size(), stopped);
}
static void conc_case(uint64_t seed, uint64_t cn, const std::string& dir) {
    Rng r(seed * 104729 + cn); std::string path = dir + "/c" + std::to_string(cn) + ".htdump";
    unsigned nt = (unsigned)r.range(2, 6), per = (unsigned)r.range(10, 150); bool anyraw = r.chance(40), shared = r.chance(40), early_stop = r.chance(40), flusher = r.chance(60);
    size_t bs = anyraw || r.chance(85) ? r.range(1, r.chance(50) ? 200 : 4000) : 0;
    std::vector<std::vector<std::string>> text(nt); for (auto& t : text) for (unsigned i = 0; i < per; i++) t.push_back(random_text(r, r.chance(5) ? r.below(500) : r.below(24)));
    HT_ErrorCode err; HT_FileDumpListener* l = ht_file_dump_listener_create(path.c_str(), bs, &err); if (!l) { violation("create-failed", "case %" PRIu64, cn); return; }
    std::vector<HT_Timeline*> tl; bool ser0 = !anyraw || r.chance(50);
    for (unsigned i = 0; i < (shared ? 1u : nt); i++) { tl.push_back(ht_timeline_create(r.below(800), HT_TRUE, shared ? ser0 : (!anyraw || r.chance(50)), NULL, NULL)); ht_timeline_register_listener(tl.back(), ht_file_dump_listener_callback, l); }
    hv_perturb_set(r.chance(30) ? 0 : (unsigned)r.range(10, 200), r.next());
    std::atomic<unsigned> ready{0}, left{nt}; unsigned total = nt + flusher + early_stop; std::vector<std::thread> th;
    auto go = [&] { ready++; while (ready.load() < total) std::this_thread::yield(); };
    for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] { go(); HT_Timeline* t = tl[shared ? 0 : i]; for (unsigned k = 0; k < per; k++) { HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.src = i; e.seq = k; e.text = text[i][k].c_str(); ht_timeline_push_event(t, HT_EVENT(&e)); } if (!shared) ht_timeline_flush(t); left--; });
    if (flusher) th.emplace_back([&] { go(); while (left.load()) { ht_file_dump_listener_flush(l, HT_TRUE); std::this_thread::yield(); } });
    uint64_t delay = r.below(1500);
    if (early_stop) th.emplace_back([&] { go(); usleep((useconds_t)delay); ht_file_dump_listener_stop(l); });
    for (auto& x : th) x.join();
    hv_perturb_set(0, 0);
    for (auto t : tl) ht_timeline_destroy(t);
    ht_file_dump_listener_destroy(l);
    Bytes got = slurp(path); unlink(path.c_str());
    size_t hl = header_len(got); if (!hl) { violation("header-incomplete", "case %" PRIu64 ": concurrent", cn); return; }
    Decoder d(got.data(), got.size(), g_uint); DEvent e; std::vector<uint64_t> next(nt, 0); uint64_t n = 0, sw = 0; uint64_t last = 99; Hash h;
    while (d.next(e)) {
        if (e.klass_name != "HvSeq") { if (e.begin >= hl) violation("foreign-event", "case %" PRIu64 ": %s", cn, e.klass_name.c_str()); continue; }
        uint64_t src = Decoder::find(e.vals, "src")->u, seq = Decoder::find(e.vals, "seq")->u;
        if (src >= nt || seq != next[src] || Decoder::find(e.vals, "text")->s != text[src][seq]) { violation("lost-duplicated-or-torn", "case %" PRIu64 ": src %" PRIu64 " seq %" PRIu64 " expected %" PRIu64, cn, src, seq, src < nt ? next[src] : 0); return; }
        next[src]++; n++; h.add(src); if (src != last) sw++;
        last = src;
    }
    if (!d.ok || d.pos != got.size()) { violation("torn-event", "case %" PRIu64 ": decoding stops at %zu of %zu: %s (buffer %zu)", cn, d.pos, got.size(), d.err.c_str(), bs); return; }
    if (!early_stop) for (unsigned i = 0; i < nt; i++) if (next[i] != per) violation("lost-event", "case %" PRIu64 ": thread %u: %" PRIu64 " of %u events in the file", cn, i, next[i], per);
    stat("cases"); stat("events", n); stat("source_switches_in_files", sw); if (early_stop) stat("stopped_while_tracing");
    if (sw > nt) sig(h.h);
    if (cn < 1) sample("concurrent: threads=%u events_each=%u buffer=%zu shared=%d stop=%d flusher=%d in_file=%" PRIu64 " switches=%" PRIu64, nt, per, bs, shared, early_stop, flusher, n, sw);
}
int main(int argc, char** argv) {
    Args a(argc, argv); g_uint = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
    ht_init(0, NULL); hv_register_all(); std::string dir = getenv("HV_TMP");
    { HT_ErrorCode e = HT_ERR_OK; if (ht_file_dump_listener_create((dir + "/no/such/dir/x").c_str(), 10, &e) || e != HT_ERR_CANT_OPEN_FILE) violation("open-error", "unwritable path: error %d", e); ht_file_dump_listener_destroy(NULL); }
    bool conc = a.str("mode") == "conc";
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) conc ? conc_case(a.seed, cn, dir) : seq_case(a.seed, cn, dir);
    ht_deinit(); done(); return 0;
}
