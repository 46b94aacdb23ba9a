// P25: any history of initialisations and shutdowns; command line options.
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <hawktracer/init.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/timeline_listener.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/scoped_tracepoint.h>
#include <hawktracer/string_scoped_tracepoint.h>
#include <condition_variable>
#include <sys/wait.h>
using namespace hv;

struct Lst { Bytes got, want; unsigned destroyed = 0; unsigned no; };
static void cb(TEventPtr e, size_t n, HT_Boolean ser, void* ud) {
    Lst* l = (Lst*)ud;
    if (!ser) violation("wrong-mode-flag", "unserialised");
    if (l->destroyed) violation("delivery-after-destroy", "listener %u", l->no);
    l->got.insert(l->got.end(), e, e + n);
}
static void destroyed(void* ud) { ((Lst*)ud)->destroyed++; }
struct Box { std::vector<Lst*> ls; int cycle; std::string name; unsigned timelines = 0; };
struct Tl { HT_Timeline* t; Box* box; Bytes pending; int cycle; unsigned no; };

// ---- thread that uses the global timeline and ends when told to
struct Worker {
    std::thread th; std::mutex m; std::condition_variable cv; bool finish = false, ready = false;
    unsigned pushed = 0; size_t bufsize; std::vector<size_t> chunks; unsigned strings = 0, ints = 0, maps = 0; int cycle; std::string label;
};
static thread_local Worker* t_worker;
static void gcb(TEventPtr e, size_t n, HT_Boolean, void*) {
    Worker* w = t_worker;
    if (!w) { violation("foreign-thread", "delivery on a thread that traced nothing"); return; }
    size_t pos = 0; size_t ints = 0, before = n;
    while (pos + 20 <= n) {
        uint32_t k; memcpy(&k, e + pos, 4);
        if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { pos += 40; ints++; w->ints++; }
        else if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { w->maps++; pos += 28; if (strcmp((const char*)e + pos, w->label.c_str())) violation("wrong-mapping", "%s", (const char*)e + pos); pos += strlen((const char*)e + pos) + 1; }
        else { violation("torn-event", "class %u in the global timeline", k); return; }
    }
    if (ints) w->chunks.push_back(before);
}
static void gdestroyed(void* ud) { (*(unsigned*)ud)++; }

static const char* OPT = "--ht-global-timeline-buffer-size";
// ---- exact-size argument vectors, so that any overread is seen
struct Argv {
    std::vector<std::string> s; char** v;
    void build() { v = (char**)malloc(s.size() * sizeof(char*)); for (size_t i = 0; i < s.size(); i++) { v[i] = (char*)malloc(s[i].size() + 1); memcpy(v[i], s[i].c_str(), s[i].size() + 1); } }
    bool same() { for (size_t i = 0; i < s.size(); i++) if (s[i] != v[i]) return false; return true; }
    ~Argv() { for (size_t i = 0; i < s.size(); i++) free(v[i]); free(v); }
};
static std::string junk(Rng& r) {
    switch (r.below(9)) {
    case 0: return "";
    case 1: return std::string(OPT) + "=7";
    case 2: return std::string(OPT).substr(0, r.range(1, strlen(OPT) - 1));
    case 3: return std::string(OPT) + "x";
    case 4: return r.chance(50) ? "--ht-helpme" : "--ht-hel";
    case 5: return random_text(r, r.range(1, 4));
    case 6: return random_text(r, r.range(500, 4000));
    case 7: return std::to_string(r.below(100));
    default: return r.chance(50) ? "--ht-unknown" : "-h";
    }
}
// the size the arguments ask for, or -1
static long long make_args(Rng& r, Argv& a) {
    long long want = -1;
    if (r.chance(10)) { a.build(); return want; }
    a.s.push_back(r.chance(20) ? OPT : "prog");
    for (unsigned i = (unsigned)r.below(6); i; i--) {
        if (r.chance(55)) { std::string j = junk(r); if (j != OPT && j != "--ht-help") a.s.push_back(j); continue; }
        a.s.push_back(OPT);
        if (r.chance(60)) { size_t n = r.pick(std::vector<size_t>{0, 1, 39, 40, 41, 79, 80, 100, 4096, 70000}); a.s.push_back((r.chance(10) ? "0" : "") + std::to_string(n)); want = (long long)n; stat("sizes_applied"); }
        else { a.s.push_back(r.pick(std::vector<std::string>{"abc", "", "-1", "-5", " -3", "-", "x12", "99999999999999999999999", "-99999999999999999999", "--"})); stat("sizes_refused"); }
    }
    if (r.chance(10)) { a.s.push_back(OPT); stat("sizes_missing"); }
    a.build();
    return want;
}
static Bytes g_meta;
static void mcb(TEventPtr e, size_t n, HT_Boolean, void*) { g_meta.insert(g_meta.end(), e, e + n); }
static std::string describe(const DKlass& k) { std::string s; for (auto& f : k.fields) s += f.type + " " + f.name + ":" + std::to_string(f.size) + ":" + std::to_string(f.dtype) + ","; return s; }
static std::map<std::string, std::string> g_desc;

static const char* CORE[] = {"HT_EndiannessInfoEvent", "HT_Event", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent", "HT_CallstackBaseEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent", "HT_StringMappingEvent", "HT_SystemInfoEvent"};

struct Case {
    Rng r; uint64_t cn; int depth = 0, cycle = 0; std::set<std::string> user;
    std::vector<std::unique_ptr<Box>> boxes; std::vector<std::unique_ptr<Lst>> lsts; std::vector<std::unique_ptr<Tl>> tls; std::vector<std::unique_ptr<Worker>> ws;
    std::map<int, std::unique_ptr<unsigned>> gdestroy; size_t bufsize; Hash h; uint64_t stamp = 1; unsigned cycles = 0; std::string hist;
    Case(uint64_t seed, uint64_t n, size_t bs) : r(seed * 1000003 + n), cn(n), bufsize(bs) {}
    void op(char c) { h.add((uint64_t)c); if (hist.size() < 300) hist += c; }
    void flushed(Tl& t) {
        for (Lst* l : t.box->ls) { l->want.insert(l->want.end(), t.pending.begin(), t.pending.end()); }
        t.pending.clear();
        for (Lst* l : t.box->ls) if (l->got != l->want) {
            violation("lost-or-changed-events", "case %" PRIu64 " (%s): listener %u has %zu bytes, expected %zu", cn, hist.c_str(), l->no, l->got.size(), l->want.size()); l->got = l->want; }
    }
    void check_init() { if ((bool)ht_is_initialized() != (depth > 0)) violation("is-initialized", "case %" PRIu64 " (%s): depth %d but ht_is_initialized() is %d", cn, hist.c_str(), depth, (int)ht_is_initialized()); }
    void init() {
        if (depth == 0) {
            Argv a; long long w = make_args(r, a);
            ht_init((int)a.s.size(), a.s.empty() && r.chance(50) ? nullptr : a.v);
            if (!a.same()) violation("arguments-changed", "case %" PRIu64, cn);
            if (w >= 0) bufsize = (size_t)w; else bufsize = ~(size_t)0;
            cycle++; cycles++; user.clear(); op('I');
        } else if (r.chance(50)) { // options count in nested initialisations, too
            Argv a; long long w = make_args(r, a); ht_init((int)a.s.size(), a.v);
            if (!a.same()) violation("arguments-changed", "case %" PRIu64 " (nested)", cn);
            if (w >= 0) { bufsize = (size_t)w; stat("nested_options"); }
            op('o'); stat("nested_inits");
        } else { char* v[] = {(char*)"p"}; ht_init(1, v); op('i'); stat("nested_inits"); }
        depth++; check_init();
    }
    void deinit() { ht_deinit(); op(depth == 1 ? 'D' : depth ? 'd' : '-'); if (depth) depth--; if (!depth) for (auto& t : tls) (void)t; check_init(); }
    void reg() {
        unsigned k = (unsigned)r.below(4); HT_EventKlassId id = 0, again = 0; const char* n = "";
        switch (k) {
        case 0: id = HT_REGISTER_EVENT_KLASS(HvTiny); again = HT_REGISTER_EVENT_KLASS(HvTiny); n = "HvTiny"; break;
        case 1: id = HT_REGISTER_EVENT_KLASS(HvSeq); again = HT_REGISTER_EVENT_KLASS(HvSeq); n = "HvSeq"; break;
        case 2: id = HT_REGISTER_EVENT_KLASS(HvMix); again = HT_REGISTER_EVENT_KLASS(HvMix); n = "HvMix"; break;
        default: id = HT_REGISTER_EVENT_KLASS(HvBig); again = HT_REGISTER_EVENT_KLASS(HvBig); n = "HvBig"; break;
        }
        if (id != again) violation("class-registered-twice", "case %" PRIu64 ": %s is %u, then %u", cn, n, id, again);
        user.insert(n); op('r'); op((char)('0' + k));
    }
    void create() {
        std::unique_ptr<Tl> t(new Tl); std::string name = r.chance(40) ? "" : r.chance(50) ? "set-a" : "set-b";
        HT_ErrorCode err; t->t = ht_timeline_create(1 << 16, r.chance(50), HT_TRUE, name.empty() ? nullptr : name.c_str(), &err);
        if (!t->t) { violation("no-timeline", "case %" PRIu64 " (%s): error %d", cn, hist.c_str(), (int)err); return; }
        Box* b = nullptr; if (!name.empty()) for (auto& x : boxes) if (x->name == name && x->cycle == cycle) b = x.get();
        if (!b) { boxes.emplace_back(new Box); b = boxes.back().get(); b->cycle = cycle; b->name = name; }
        if (r.chance(40)) { if (ht_feature_callstack_enable(t->t) != HT_ERR_OK || ht_feature_cached_string_enable(t->t, r.chance(50)) != HT_ERR_OK) violation("no-feature", "case %" PRIu64 " (%s)", cn, hist.c_str()); }
        b->timelines++; t->box = b; t->cycle = cycle; t->no = (unsigned)tls.size(); tls.push_back(std::move(t)); op('t');
    }
    Tl* pick() { if (tls.empty()) return nullptr; return tls[r.below(tls.size())].get(); }
    void listen() {
        Tl* t = pick(); if (!t) return;
        lsts.emplace_back(new Lst); Lst* l = lsts.back().get(); l->no = (unsigned)lsts.size();
        if (ht_timeline_register_listener_full(t->t, cb, l, destroyed) != HT_ERR_OK) violation("register-failed", "case %" PRIu64, cn);
        t->box->ls.push_back(l); op('l');
    }
    void push() {
        Tl* t = pick(); if (!t || t->pending.size() > 30000) return;
        AnyEvent e;
        if (user.count("HvSeq") && r.chance(50)) e.seq((uint32_t)t->no, stamp++, "text");
        else if (user.count("HvTiny") && r.chance(50)) e.as<HvTiny>(HT_EVENT_KLASS_GET(HvTiny))->a = (uint8_t)stamp++;
        else if (user.count("HvBig") && r.chance(50)) e.as<HvBig>(HT_EVENT_KLASS_GET(HvBig))->f3 = stamp++;
        else { e.s1 = std::to_string(stamp++); e.as<HT_CallstackStringEvent>(HT_EVENT_KLASS_GET(HT_CallstackStringEvent))->label = e.s1.c_str(); }
        ht_timeline_init_event(t->t, e.ev());
        Bytes w = e.wire(); ht_timeline_push_event(t->t, e.ev());
        t->pending.insert(t->pending.end(), w.begin(), w.end()); stat("events"); op('p');
    }
    void flush() { Tl* t = pick(); if (!t) return; ht_timeline_flush(t->t); flushed(*t); op('f'); }
    void destroy() {
        if (tls.empty()) return;
        size_t i = r.below(tls.size()); std::unique_ptr<Tl> t = std::move(tls[i]); tls.erase(tls.begin() + (long)i);
        ht_timeline_destroy(t->t); if (!depth) stat("destroyed_after_shutdown"); if (t->cycle != cycle) stat("destroyed_in_later_cycle");
        flushed(*t); t->box->timelines--; op('x');
    }
    void metadata() {
        g_meta.clear(); size_t n = ht_timeline_listener_push_metadata(mcb, nullptr, HT_TRUE);
        if (n != g_meta.size()) violation("metadata-size", "case %" PRIu64 ": %zu reported, %zu delivered", cn, n, g_meta.size());
        Decoder d(g_meta.data(), g_meta.size(), HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); d.all();
        if (!d.ok || d.pos != d.n) { violation("metadata-damaged", "case %" PRIu64 " (%s): %s", cn, hist.c_str(), d.err.c_str()); return; }
        std::map<std::string, unsigned> seen; std::map<uint32_t, std::string> ids; std::map<std::string, std::map<std::string, unsigned>> fields;
        for (auto& e : d.events) {
            if (e.klass == 2) { auto n2 = Decoder::find(e.vals, "event_klass_name")->s; seen[n2]++; uint32_t id = (uint32_t)Decoder::find(e.vals, "info_klass_id")->u; if (ids.count(id) && ids[id] != n2) violation("class-id-shared", "case %" PRIu64 " (%s): %u is %s and %s", cn, hist.c_str(), id, ids[id].c_str(), n2.c_str()); ids[id] = n2; }
        }
        std::set<std::string> want(user); for (auto c : CORE) want.insert(c);
        for (auto& w : want) if (seen[w] != 1) violation("class-description", "case %" PRIu64 " (%s): %s is described %u times", cn, hist.c_str(), w.c_str(), seen[w]);
        for (auto& s : seen) if (s.second && !want.count(s.first)) violation("class-description", "case %" PRIu64 " (%s): %s is described but not registered", cn, hist.c_str(), s.first.c_str());
        for (int i = 0; i < 4; i++) if (ids[(uint32_t)i] != CORE[i]) violation("well-known-id", "case %" PRIu64 " (%s): class %d is %s", cn, hist.c_str(), i, ids[(uint32_t)i].c_str());
        for (auto& k : d.klasses) {
            std::string s = describe(k.second); if (k.first < 4) continue;
            if (k.second.fields.size() != k.second.announced) violation("class-description", "case %" PRIu64 " (%s): %s announced %u fields, %zu described", cn, hist.c_str(), k.second.name.c_str(), k.second.announced, k.second.fields.size());
            if (g_desc.count(k.second.name) && g_desc[k.second.name] != s) violation("class-description", "case %" PRIu64 " (%s): %s is now %s, was %s", cn, hist.c_str(), k.second.name.c_str(), s.c_str(), g_desc[k.second.name].c_str());
            g_desc[k.second.name] = s;
        }
        stat("metadata_streams"); op('m');
    }
    void spawn() {
        if (ws.size() >= 6) return;
        ws.emplace_back(new Worker); Worker* w = ws.back().get(); w->cycle = cycle; w->bufsize = bufsize; w->pushed = (unsigned)r.below(60); w->label = "lab" + std::to_string(stamp++); w->strings = (unsigned)r.below(2);
        unsigned*& gd = gd_for(cycle); bool first = !gd; if (first) { gdestroy[cycle].reset(new unsigned(0)); }
        unsigned* ud = gdestroy[cycle].get();
        w->th = std::thread([w, first, ud] {
            t_worker = w; HT_Timeline* t = ht_global_timeline_get();
            if (!t) { violation("no-timeline", "global"); std::unique_lock<std::mutex> l(w->m); w->ready = true; w->cv.notify_all(); return; }
            if (first) ht_timeline_register_listener_full(t, gcb, ud, gdestroyed);
            for (unsigned i = 0; i < w->pushed; i++) { if (w->strings && i == w->pushed / 2) ht_feature_cached_string_add_mapping(t, w->label.c_str()); HT_TP_GLOBAL_SCOPED_INT(i); }
            std::unique_lock<std::mutex> l(w->m); w->ready = true; w->cv.notify_all(); w->cv.wait(l, [w] { return w->finish; });
        });
        std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [w] { return w->ready; }); op('w');
    }
    unsigned*& gd_for(int c) { static unsigned* none; static unsigned* some; none = nullptr; some = gdestroy.count(c) ? gdestroy[c].get() : nullptr; return some ? some : none; }
    void join(size_t i) {
        Worker* w = ws[i].get(); { std::unique_lock<std::mutex> l(w->m); w->finish = true; } w->cv.notify_all(); w->th.join();
        if (w->ints != w->pushed) violation("lost-events-of-thread", "case %" PRIu64 " (%s): thread of cycle %d (now %d, depth %d) traced %u scopes, %u were delivered", cn, hist.c_str(), w->cycle, cycle, depth, w->pushed, w->ints);
        unsigned em = w->strings && w->pushed ? 1 : 0;
        if (w->maps != em) violation("lost-events-of-thread", "case %" PRIu64 " (%s): %u of %u mappings", cn, hist.c_str(), w->maps, em);
        if (w->bufsize != ~(size_t)0 && !w->strings && w->chunks.size() > 1) {
            size_t want = w->bufsize < 40 ? 40 : w->bufsize / 40 * 40;
            if (w->chunks[0] != want) violation("option-not-applied", "case %" PRIu64 ": buffer size %zu asked for, but %zu bytes were delivered at once", cn, w->bufsize, w->chunks[0]);
            stat("sizes_observed");
        } else if (w->bufsize != ~(size_t)0 && !w->strings && (size_t)w->pushed * 40 > (w->bufsize < 40 ? 40 : w->bufsize)) violation("option-not-applied", "case %" PRIu64 ": buffer size %zu asked for, but %u events of 40 bytes came at once", cn, w->bufsize, w->pushed);
        stat(depth ? w->cycle == cycle ? "threads_joined" : "threads_joined_in_later_cycle" : "threads_joined_after_shutdown");
        ws.erase(ws.begin() + (long)i); op('j');
    }
    size_t run() {
        unsigned ops = (unsigned)r.range(5, 80);
        for (unsigned i = 0; i < ops && violation_count() < 5; i++) {
            unsigned k = (unsigned)r.below(100);
            if (depth == 0) {
                if (k < 50) init(); else if (k < 60) deinit(); else if (k < 80) destroy(); else if (!ws.empty()) join(r.below(ws.size()));
                continue;
            }
            if (k < 6 && depth < 4) init(); else if (k < 16) deinit(); else if (k < 24) reg(); else if (k < 34) create(); else if (k < 44) listen(); else if (k < 66) push();
            else if (k < 74) flush(); else if (k < 82) destroy(); else if (k < 90) metadata(); else if (k < 94) spawn(); else if (!ws.empty()) join(r.below(ws.size()));
        }
        // everything ends in a random order
        while ((depth || !tls.empty() || !ws.empty()) && violation_count() < 5) { unsigned k = (unsigned)r.below(3); if (k == 0 && depth) deinit(); else if (k == 1) destroy(); else if (!ws.empty()) join(r.below(ws.size())); }
        while (depth) deinit();
        for (auto& l : lsts) if (l->destroyed != 1 && !violated()) violation("destroy-callback", "case %" PRIu64 " (%s): listener %u destroyed %u times after the last shutdown", cn, hist.c_str(), l->no, l->destroyed);
        for (auto& g : gdestroy) if (*g.second != 1 && !violated()) violation("destroy-callback", "case %" PRIu64 " (%s): listener of the global timelines destroyed %u times", cn, hist.c_str(), *g.second);
        for (auto& w : ws) { { std::unique_lock<std::mutex> l(w->m); w->finish = true; } w->cv.notify_all(); w->th.join(); }
        stat_max("max_cycles_in_case", cycles); stat("cycles", cycles); if (cycles > 1) sig(h.h);
        if (cn < 3) sample("%s", hist.c_str());
        return 0;
    }
};
static void help(Rng& r) {
    int fd[2]; if (pipe(fd)) return;
    Argv a; a.s.push_back("prog"); for (unsigned i = (unsigned)r.below(4); i; i--) { std::string j = junk(r); if (j != OPT) a.s.push_back(j); }
    a.s.push_back("--ht-help"); if (r.chance(50)) a.s.push_back(junk(r));
    a.build(); fflush(stdout);
    pid_t p = fork();
    if (p == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); ht_init((int)a.s.size(), a.v); fflush(stdout); _exit(77); }
    close(fd[1]); std::string out; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, (size_t)n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) violation("help", "process with --ht-help ended with status %x", st);
    else if (out.find(OPT) == std::string::npos || out.find("--ht-help") == std::string::npos) violation("help", "options are not listed: %s", out.c_str());
    stat("helps");
}
int main(int argc, char** argv) {
    Args a(argc, argv); size_t bs = 1024;
    Rng hr(a.seed); for (int i = 0; i < 4; i++) help(hr);
    // tracing after a shutdown and a new initialisation on a thread that already has its global timeline is covered by the workers that outlive cycles
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) { Case c(a.seed, cn, bs); c.run(); stat("cases"); }
    done(); return 0;
}
