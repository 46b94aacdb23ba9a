// P30: the traced program ends in every possible way, at every possible point; what it leaves behind must be a readable prefix of the trace.
#include "hv_ev.hpp"
#include "hv_parse.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
using namespace hv;
extern "C" void ht_global_timeline_set_buffer_size(size_t);
static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(long us) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&ts, 0); }
static unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
enum { MAXT = 5 };
enum Death { D_KILL, D_CALL, D_ABORT, D_UEXIT, D_QUICK, D_THROW, D_EXIT_RUN, D_EXIT_JOINED, D_FULL, D_PTHREAD_EXIT, D_N };
static const char* g_death[D_N] = {"killed", "killed_at_a_call", "abort", "_exit", "quick_exit", "uncaught_exception", "exit_while_tracing", "exit_after_joining", "orderly_shutdown", "main_thread_ends_first"};
struct Sh { // shared with the dying process
    std::atomic<uint64_t> begun[MAXT], pushed[MAXT], durable[MAXT], calls; std::atomic<int> ready, port, failed, creating, all_done, flushes;
};
static Sh* sh; static bool g_child;
extern "C" int __lsan_is_turned_off() { return g_child; } // an abruptly ended process frees nothing
// ---------------------------------------------------------------- calls at which the process can be killed
static uint64_t g_at; static int g_variant; static size_t g_cut;
static void die() { raise(SIGKILL); for (;;) pause(); }
static bool here() { if (!g_child) return false; uint64_t n = ++sh->calls; return g_at && n == g_at; }
extern "C" {
size_t hv_sys_fwrite(const void* p, size_t s, size_t n, FILE* f) {
    if (!here()) return fwrite(p, s, n, f);
    size_t all = s * n, k = g_variant == 1 ? (all ? g_cut % all : 0) : g_variant >= 2 ? all : 0;
    if (k) fwrite(p, 1, k, f);
    if (g_variant != 2) fflush(f);
    die(); return 0;
}
int hv_sys_fflush(FILE* f) { bool h = here(); if (h && g_variant == 0) die(); int r = fflush(f); if (h) die(); return r; }
int hv_sys_fclose(FILE* f) { bool h = here(); if (h && g_variant == 0) die(); int r = fclose(f); if (h) die(); return r; }
FILE* hv_sys_fopen(const char* p, const char* m) { bool h = here(); if (h && g_variant == 0) die(); FILE* f = fopen(p, m); if (h) die(); return f; }
ssize_t hv_sys_send(int fd, const void* p, size_t n, int fl) { if (!here()) return send(fd, p, n, fl); size_t k = g_variant == 0 ? 0 : g_variant == 1 ? (n ? g_cut % n : 0) : n; if (k) send(fd, p, k, fl); die(); return -1; }
}
// ---------------------------------------------------------------- the traced program
struct Cfg { uint64_t seed; unsigned threads, per, death; bool global, ser, tcp, two, destroy; size_t tbuf, fbuf; unsigned when; std::string dir; int port; bool forks; };
static std::string text(unsigned s, uint64_t q, size_t len) { std::string t(len, 'x'); for (size_t i = 0; i < len; i++) t[i] = (char)(1 + (q * 7 + s * 31 + i * 13) % 255); return t; }
static size_t text_len(uint64_t seed, unsigned s, uint64_t q) { Rng r(seed * 1000003 + s * 7919 + q); return r.chance(6) ? r.below(4000) : r.below(60); }
struct Prog { Cfg c; HT_Timeline* tl; HT_FileDumpListener* f[2]; HT_TCPListener* t; std::atomic<uint64_t> total{0}; std::atomic<bool> quit{false}; };
static void the_end(const Cfg& c) {
    switch (c.death) {
    case D_ABORT: signal(SIGABRT, SIG_DFL); abort();
    case D_UEXIT: _exit(7);
    case D_QUICK: quick_exit(7);
    case D_THROW: signal(SIGABRT, SIG_DFL); std::terminate();
    case D_EXIT_RUN: exit(7);
    }
}
static void worker(Prog* p, unsigned me) {
    const Cfg& c = p->c; Rng r(c.seed * 31 + me); bool own = c.global;
    for (uint64_t q = 0; q < c.per && !p->quit; q++) {
        sh->begun[me] = q + 1;
        {
            HT_Timeline* tl = own ? ht_global_timeline_get() : p->tl; char* t = strdup(text(me, q, text_len(c.seed, me, q)).c_str()); // read when the timeline is flushed
            HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(tl, HT_EVENT(&e)); e.src = me; e.seq = q; e.text = t; ht_timeline_push_event(tl, HT_EVENT(&e));
            if (c.global || c.ser) free(t);
        }
        sh->pushed[me] = q + 1;
        if (p->total++ == c.when) the_end(c);
        if (r.chance(4)) {
            uint64_t snap[MAXT]; for (unsigned i = 0; i < MAXT; i++) snap[i] = sh->pushed[i];
            ht_timeline_flush(own ? ht_global_timeline_get() : p->tl);
            if (ht_file_dump_listener_flush(p->f[0], HT_TRUE) != HT_ERR_OK) sh->failed = 3;
            else { sh->flushes++; for (unsigned i = 0; i < c.threads; i++) if (!own || i == me) { uint64_t d = sh->durable[i]; while (d < snap[i] && !sh->durable[i].compare_exchange_weak(d, snap[i])) {} } }
        }
        if (c.forks && r.chance(2)) { pid_t k = fork(); if (!k) _exit(0); if (k > 0) waitpid(k, nullptr, 0); }
        if (r.chance(10)) nap((long)r.below(200));
    }
}
static Prog* g_prog; static pthread_t g_main;
static int traced_program(const Cfg& c) {
    g_child = true; prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_IGN);
    Rng r(c.seed); if (c.death == D_CALL) { g_at = c.when; g_variant = (int)r.below(4); g_cut = r.below(5000); }
    ht_init(0, nullptr); hv_register_all();
    Prog* p = g_prog = new Prog; p->c = c; p->f[0] = p->f[1] = nullptr; p->t = nullptr; HT_ErrorCode e;
    ht_global_timeline_set_buffer_size(c.tbuf);
    p->tl = c.global ? ht_global_timeline_get() : ht_timeline_create(c.tbuf, HT_TRUE, c.ser ? HT_TRUE : HT_FALSE, nullptr, &e);
    p->f[0] = ht_file_dump_listener_register(p->tl, (c.dir + "/a").c_str(), c.fbuf, &e);
    if (c.two) p->f[1] = ht_file_dump_listener_register(p->tl, (c.dir + "/b").c_str(), c.fbuf / 2 + 1, &e);
    if (!p->f[0] || (c.two && !p->f[1])) { sh->failed = 1; _exit(77); }
    if (c.tcp) {
        sh->creating = 1;
        for (int k = 0; k < 40 && !p->t; k++) { p->t = ht_tcp_listener_register(p->tl, c.port + k, c.fbuf, &e); if (p->t) sh->port = c.port + k; }
        if (!p->t) { sh->failed = 2; _exit(77); }
    }
    sh->ready = 1;
    if (c.tcp) nap((long)r.below(20000));
    std::vector<pthread_t> th; static unsigned idx[MAXT];
    for (unsigned i = c.global || r.chance(50) ? 1 : 0; i < c.threads; i++) { idx[i] = i; pthread_t t; pthread_create(&t, nullptr, [](void* u) -> void* { worker(g_prog, *(unsigned*)u); return nullptr; }, &idx[i]); th.push_back(t); }
    if (th.size() < c.threads) worker(p, 0);
    if (c.death == D_PTHREAD_EXIT) { for (pthread_t t : th) pthread_detach(t); pthread_exit(nullptr); }
    for (pthread_t t : th) pthread_join(t, nullptr);
    the_end(c); // those that were to happen later than anything was traced
    if (c.death == D_FULL) { if (!c.global) ht_timeline_destroy(p->tl); ht_deinit(); sh->all_done = 1; if (!c.global) { exit(0); } if (c.tcp && r.chance(50)) nap((long)r.below(3000)); }
    if (c.death == D_EXIT_JOINED) { if (c.destroy) { ht_timeline_flush(p->tl); if (!c.global) { ht_timeline_destroy(p->tl); sh->all_done = 1; } } }
    if (c.death == D_KILL || c.death == D_CALL) { if (!c.global) ht_timeline_destroy(p->tl); for (;;) { if (c.death == D_CALL) die(); pause(); } }
    exit(0);
}
// ---------------------------------------------------------------- the judge
static std::string g_where;
static void bad(const char* key, const char* fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(key, "%s: %s", g_where.c_str(), b); }
static Bytes slurp(const std::string& p) { Bytes b; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return b; uint8_t t[65536]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); close(fd); return b; }
static void judge(const char* what, const Bytes& b, const Cfg& c, bool from_start, bool durable, bool complete, bool order) {
    Decoder d(b.data(), b.size(), UC); d.all();
    if (!d.ok && d.err.compare(0, 9, "truncated")) { bad("damaged", "%s: %s at byte %zu of %zu", what, d.err.c_str(), d.pos, b.size()); return; }
    if (complete && (!d.ok || d.pos != b.size())) bad("damaged", "%s ends inside an event at byte %zu of %zu", what, d.pos, b.size());
    uint64_t next[MAXT] = {0}; bool started[MAXT] = {false}; size_t n = 0;
    if (!d.events.empty() && d.events[0].klass != 0) bad("no-header", "%s does not begin with the stream header", what);
    for (auto& e : d.events) {
        if (e.klass_name != "HvSeq") continue;
        n++;
        uint64_t src = Decoder::find(e.vals, "src")->u, seq = Decoder::find(e.vals, "seq")->u;
        if (src >= c.threads) { bad("damaged", "%s: an event of thread %llu", what, (unsigned long long)src); return; }
        if (!from_start && !started[src]) next[src] = seq;
        started[src] = true;
        if (seq != next[src]) { bad(order ? "events-lost" : "damaged", "%s: thread %llu: event %llu after event %lld", what, (unsigned long long)src, (unsigned long long)seq, (long long)next[src] - 1); return; }
        if (Decoder::find(e.vals, "text")->s != text((unsigned)src, seq, text_len(c.seed, (unsigned)src, seq))) { bad("damaged", "%s: event %llu of thread %llu has wrong content", what, (unsigned long long)seq, (unsigned long long)src); return; }
        next[src]++;
    }
    for (unsigned t = 0; t < c.threads; t++) {
        if (next[t] > sh->begun[t]) bad("invented", "%s has %llu events of thread %u, which traced %llu", what, (unsigned long long)next[t], t, (unsigned long long)sh->begun[t].load());
        if (durable && next[t] < sh->durable[t]) bad("flushed-events-lost", "%s has %llu events of thread %u though %llu had been flushed to it", what, (unsigned long long)next[t], t, (unsigned long long)sh->durable[t].load());
        if (complete && next[t] != sh->pushed[t]) bad("incomplete", "%s has %llu of %llu events of thread %u after an orderly end", what, (unsigned long long)next[t], (unsigned long long)sh->pushed[t].load(), t);
    }
    hv::stat("events_recovered", n); if (d.pos != b.size()) hv::stat("ends_inside_an_event");
    Parsed p = parse_bytes(b, true);
    size_t i = 0; for (; i < d.events.size() && i < p.events.size(); i++) if (d.events[i].klass > 3 && p.events[i] != canon_flat(d.events[i])) { bad("parser-differs", "%s: event %zu read as %s", what, i, p.events[i].c_str()); break; }
    if (p.events.size() != d.events.size()) bad("parser-differs", "%s: %zu intact events, %zu reported by the parser", what, d.events.size(), p.events.size());
}
static std::atomic<bool> g_ended{false};
// With the accept queue full the kernel completes a connection for the client alone; once the listener is gone, such a client hears nothing.
struct Peer { int port; Bytes got; bool over = false, up = false, brief = false; };
static void peer(Peer* p, uint64_t delay) {
    nap((long)delay); int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p->port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a) == 0) { p->up = true; uint8_t b[8192]; uint64_t end = now_ms() + 60000; while (now_ms() < end) { pollfd pf = {s, POLLIN, 0}; if (poll(&pf, 1, 500) <= 0) { if (g_ended && p->got.empty()) { hv::stat("clients_never_accepted"); p->over = true; break; } continue; } ssize_t n = recv(s, b, sizeof b, 0); if (n <= 0) { p->over = true; break; } p->got.insert(p->got.end(), b, b + n); if (p->brief && p->got.size() > 3000) { p->over = true; break; } } }
    close(s);
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.num("seed", 1), cases = a.num("cases", 50); std::string dir = a.str("dir", "/nonexistent"); int port = (int)a.num("port", 24000), only = (int)a.num("death", D_N);
    sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); signal(SIGPIPE, SIG_IGN);
    for (uint64_t i = 0; i < cases && violation_count() < 3; i++) {
        Rng r(seed * 100003 + i); Cfg c; c.seed = seed * 100003 + i; c.threads = (unsigned)r.range(1, 4); c.per = (unsigned)r.range(1, 400); c.death = only < D_N ? (unsigned)only : (unsigned)(r.chance(35) ? D_CALL : r.below(D_N)); c.global = r.chance(40); c.ser = r.chance(50); c.tcp = r.chance(30); c.two = r.chance(30); c.destroy = r.chance(50);
        if (c.death == D_PTHREAD_EXIT) c.tcp = false; // the server's thread keeps such a program alive
        c.tbuf = r.chance(20) ? 0 : r.below(2000); c.fbuf = r.chance(15) ? 1 : r.chance(50) ? r.below(300) + 1 : r.below(9000) + 1; c.dir = dir; c.port = port + (int)(i * 3 % 600); c.forks = r.chance(15) && c.death != D_CALL && a.num("forks", 1);
        if (c.death == D_CALL) { c.when = (unsigned)(r.chance(30) ? r.range(1, 8) : r.range(1, 150)); if (r.chance(50)) c.threads = 1; }
        else c.when = (unsigned)r.below(c.threads * c.per + 1);
        if (c.death == D_KILL) c.when = ~0u;
        if (c.death >= D_EXIT_JOINED) c.when = ~0u;
        char w[300]; snprintf(w, sizeof w, "case %llu: %s, %u threads, %s timeline%s, file buffer %zu%s%s%s", (unsigned long long)i, g_death[c.death], c.threads, c.global ? "global" : "shared", c.ser ? " (serialising)" : "", c.fbuf, c.tcp ? ", TCP" : "", c.two ? ", two files" : "", c.forks ? ", forking" : ""); g_where = w;
        unlink((dir + "/a").c_str()); unlink((dir + "/b").c_str()); memset((void*)sh, 0, sizeof *sh); fflush(stdout); fflush(stderr);
        pid_t pid = fork(); if (!pid) { traced_program(c); _exit(0); }
        std::vector<std::unique_ptr<Peer>> peers; std::vector<std::thread> th; int st = 0; bool gone = false; uint64_t t0 = now_ms();
        auto reap = [&](uint64_t ms) { uint64_t end = now_ms() + ms; for (;;) { if (gone || (gone = waitpid(pid, &st, WNOHANG) == pid)) return true; if (now_ms() >= end) return false; nap(200); } };
        while (!sh->ready && !reap(0) && now_ms() - t0 < 30000) nap(100);
        if (sh->ready && c.tcp) for (unsigned k = (unsigned)r.range(1, 2); k; k--) { peers.emplace_back(new Peer); Peer* p = peers.back().get(); p->port = sh->port; uint64_t dl = r.below(30000); th.emplace_back([p, dl] { peer(p, dl); }); }
        std::vector<std::unique_ptr<Peer>> late; // one connection after the other, till the very end
        if (sh->ready && c.tcp && r.chance(60)) { int pt = sh->port; th.emplace_back([&late, pt] { for (int k = 0; k < 150; k++) { std::unique_ptr<Peer> p(new Peer); p->port = pt; p->brief = true; peer(p.get(), 0); if (!p->up) break; late.push_back(std::move(p)); } }); }
        if (c.death == D_KILL) { reap(0); uint64_t us = r.chance(50) ? r.below(5000) : r.below(60000); nap((long)us); kill(pid, SIGKILL); }
        if (!reap(60000)) { bad("does-not-end", "the program was still running 60 s later"); kill(pid, SIGKILL); reap(10000); }
        g_ended = true; for (auto& t : th) t.join(); g_ended = false;
        bool sig = WIFSIGNALED(st); int want_sig = c.death == D_KILL || c.death == D_CALL ? SIGKILL : c.death == D_ABORT || c.death == D_THROW ? SIGABRT : 0, want = c.death == D_UEXIT || c.death == D_QUICK || c.death == D_EXIT_RUN ? 7 : 0;
        if (sh->failed == 2) { hv::stat("no_free_port"); continue; }
        if (sh->failed) bad("unprovoked-failure", "file listener error (%d)", sh->failed.load());
        if (want_sig ? !(sig && WTERMSIG(st) == want_sig) : !(WIFEXITED(st) && WEXITSTATUS(st) == want)) bad("ended-differently", "%s %d", sig ? "signal" : "exit status", sig ? WTERMSIG(st) : WEXITSTATUS(st));
        bool files_live = c.death == D_EXIT_RUN && c.threads > 1, complete = (c.death == D_FULL || (c.death == D_EXIT_JOINED && sh->all_done)) ;
        Bytes f[2] = {slurp(dir + "/a"), slurp(dir + "/b")};
        if (!files_live) { judge("file a", f[0], c, true, true, complete, true); if (c.two) judge("file b", f[1], c, true, false, complete, true); }
        else hv::stat("files_not_judged");
        for (auto& p : late) peers.push_back(std::move(p));
        for (auto& p : peers) if (p->up) { if (!p->over) bad("connection-stays-open", "a client did not see the end of the program"); judge("client", p->got, c, false, false, false, true); hv::stat("clients"); if (p->got.size() > 2000) hv::stat("clients_served"); }
        hv::stat("cases"); hv::stat(std::string("ended_") + g_death[c.death]); hv::stat("flushes", (uint64_t)sh->flushes.load()); if (f[0].empty()) hv::stat("ended_before_anything_was_written");
        uint64_t h = c.death * 31 + c.threads; for (unsigned t = 0; t < c.threads; t++) h = h * 1000003 + sh->pushed[t]; sig ? h *= 3 : h; hv::sig(Rng::mix(h * 131 + f[0].size()));
        if (i < 2) sample("%s: file of %zu bytes after %llu events of thread 0", w, f[0].size(), (unsigned long long)sh->pushed[0].load());
    }
    done(); return 0;
}
