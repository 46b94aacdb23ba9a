#include <fcntl.h>
#include <sys/stat.h>
// P06: TCP listener with clients that come, go, stall and disconnect at any moment.
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/registry.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include <sys/time.h>
using namespace hv;
static uint64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
static void us(long n) { struct timespec ts = {n / 1000000, (n % 1000000) * 1000}; nanosleep(&ts, 0); }
enum Kind { READER, SLOW, STALL, LEAVE_FIN, LEAVE_RST, DURING_STOP };
struct Client {
    Kind kind; unsigned delay; size_t leave_after; uint64_t seed;
    bool crowd = false; Bytes got; bool eof = false; int err = 0; bool connected = false; std::atomic<size_t> have{0};
    std::atomic<bool> finished{false};
};
// Moves one of the harness's own descriptors out of the way: the low numbers, 0 among them, are for the library (a daemon often runs with its standard input closed).
static int high(int fd) { if (fd < 0) return fd; int h = fcntl(fd, F_DUPFD, 60); close(fd); return h; }
static size_t g_meta; // size of header + class descriptions (learnt from a reference, not from the clients)
static void mask_alarm();
static std::atomic<int> g_sndbuf{0}, g_connected{0};
static void client(Client& c, int port, std::atomic<int>& go) {
    mask_alarm();
    Rng q(c.seed);
    if (c.kind == DURING_STOP) { while (!go.load()) std::this_thread::yield(); us((long)q.below(400)); }
    else us(c.delay);
    int s = high(socket(AF_INET, SOCK_STREAM, 0));
    if (c.kind == SLOW || c.kind == STALL) { int v = 4096; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); }
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((unsigned short)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    // Many clients arrive one by one: were the accept queue to overflow, the kernel would complete a connection for the client alone.
    static std::mutex door; std::unique_lock<std::mutex> one(door, std::defer_lock); if (c.crowd) one.lock(); int before = g_connected.load();
    if (connect(s, (sockaddr*)&a, sizeof a) != 0) { c.err = errno; close(s); c.finished = true; return; }
    c.connected = true;
    if (c.crowd) { for (int i = 0; i < 20000 && g_connected.load() == before; i++) us(100); one.unlock(); }
    if (c.kind == STALL) us((long)q.range(1000, 25000));
    uint8_t buf[8192];
    for (;;) {
        size_t want = c.kind == SLOW ? q.range(1, 600) : sizeof buf;
        if ((c.kind == LEAVE_FIN || c.kind == LEAVE_RST) && c.got.size() >= c.leave_after) break;
        ssize_t n = recv(s, buf, want, 0);
        if (n == 0) { c.eof = true; break; }
        if (n < 0) { if (errno == EINTR) continue; c.err = errno; break; }
        c.got.insert(c.got.end(), buf, buf + n); c.have.store(c.got.size());
        if (c.kind == SLOW && q.chance(10)) us((long)q.below(300));
    }
    if (c.kind == LEAVE_RST) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    close(s); c.finished = true;
}
static void on_alarm(int) {}
static void mask_alarm() { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_BLOCK, &m, nullptr); }
static std::atomic<unsigned> g_zero{0};
static void on_connected(int fd, void*) { if (fd == 0) g_zero++; g_connected.fetch_add(1, std::memory_order_relaxed); int v = g_sndbuf.load(std::memory_order_relaxed); if (v) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
int main(int argc, char** argv) {
    Args a(argc, argv);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr); // no SA_RESTART: system calls get interrupted
    ht_init(0, NULL); hv_register_all();
    bool low = a.num("low", 0) != 0;
    size_t nklass = 0; HT_EventKlass** kl = ht_registry_get_event_klasses(&nklass);
    int port = (int)a.num("port", 21000), port0 = port;
    { // the size of the description, from a trace file without events
        std::string f = std::string(getenv("HV_TMP") ? getenv("HV_TMP") : "/tmp") + "/p06-" + std::to_string(getpid()); HT_ErrorCode e; HT_FileDumpListener* l = ht_file_dump_listener_create(f.c_str(), 500, &e);
        struct stat st; memset(&st, 0, sizeof st); if (l) ht_file_dump_listener_destroy(l); if (!l || ::stat(f.c_str(), &st) || !st.st_size) { note("no reference file"); done(); return 0; } g_meta = (size_t)st.st_size; unlink(f.c_str());
    }
    unsigned uint_code = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 424243 + cn);
        unsigned ns = r.chance(50) ? 1 : (unsigned)r.range(2, 4); // pushing threads, each with its own or one shared timeline
        bool shared = r.chance(50);
        size_t lbuf = r.chance(20) ? r.range(1, 60) : r.chance(50) ? r.range(60, 500) : r.below(8000);
        HT_TCPListener* lst = nullptr; HT_ErrorCode err;
        int hold = -1; if (low) { close(0); if (r.chance(50)) hold = open("/dev/null", O_RDONLY); } // number 0 goes to the listening socket or to the first client
        for (int tries = 0; tries < 900 && !lst; tries++) { port++; if (port >= port0 + 900) port = port0; lst = ht_tcp_listener_create(port, lbuf, &err); }
        if (!lst) {
            unsigned usable = 0; // ports on which this process itself can listen
            for (int k = 0; k < 20; k++) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(INADDR_ANY); x.sin_port = htons((uint16_t)(port0 + k * 40)); if (fd >= 0 && bind(fd, (sockaddr*)&x, sizeof x) == 0 && listen(fd, 5) == 0) usable++; if (fd >= 0) close(fd); }
            if (usable > 10) violation("listener-refused", "no TCP listener could be created (error %d) on any of 900 ports, most of which are free", (int)err); else note("no free port");
            break;
        }
        if (hold >= 0) close(hold);
        g_connected = 0; g_sndbuf = r.chance(50) ? (int)r.range(2048, 8192) : 0; ht_tcp_listener_set_on_client_connected_callback(lst, on_connected, nullptr);
        bool unser = r.chance(40);
        if (unser && lbuf < 64) unser = false; // documented: buffer must hold an event for unserialised timelines
        std::vector<HT_Timeline*> tls; for (unsigned i = 0; i < (shared ? 1 : ns); i++) tls.push_back(ht_timeline_create(r.chance(20) ? 0 : r.below(2000), HT_TRUE, !unser, NULL, NULL));
        int owner = r.chance(50) ? (int)r.below(tls.size()) : -1; // this timeline destroys the listener
        for (unsigned i = 0; i < tls.size(); i++) ht_timeline_register_listener_full(tls[i], ht_tcp_listener_callback, lst, (int)i == owner ? (HT_DestroyCallback)ht_tcp_listener_destroy : NULL);
        std::vector<std::unique_ptr<Client>> cs; unsigned nc = (unsigned)(r.chance(4) ? r.range(7, 40) : r.range(1, 6));
        for (unsigned i = 0; i < nc; i++) {
            cs.emplace_back(new Client); Client& c = *cs.back(); c.crowd = nc > 6; c.seed = r.next(); c.delay = r.chance(30) ? 0 : (unsigned)r.below(6000);
            unsigned k = (unsigned)r.below(12); c.kind = k < 4 ? READER : k < 6 ? SLOW : k < 7 ? STALL : k < 9 ? LEAVE_FIN : k < 11 ? LEAVE_RST : nc > 6 ? READER : DURING_STOP;
            c.leave_after = r.chance(30) ? 0 : r.chance(50) ? r.below(3000) : r.below(30000);
        }
        hv_perturb_set(r.chance(25) ? 0 : (unsigned)r.range(20, 300), r.next());
        std::atomic<int> stopping{0}; std::vector<std::thread> ct, pt;
        for (auto& c : cs) { Client* p = c.get(); ct.emplace_back([p, port, &stopping] { client(*p, port, stopping); }); }
        std::vector<uint64_t> last(ns, 0); std::vector<std::string> fill(ns);
        auto text = [](unsigned s, uint64_t q, size_t len) { std::string t(len, 'x'); for (size_t i = 0; i < len; i++) t[i] = (char)(1 + (s * 31 + q * 7 + i * 13) % 255); return t; };
        auto push = [&](unsigned s, uint64_t q, size_t len) { std::string t = text(s, q, len); HT_DECL_EVENT(HvSeq, e); HT_Timeline* tl = tls[shared ? 0 : s]; ht_timeline_init_event(tl, HT_EVENT(&e)); e.src = s; e.seq = q; e.text = t.c_str();
            // with an unserialised timeline the listener reads the text at delivery, so it must outlive the call: flush at once
            ht_timeline_push_event(tl, HT_EVENT(&e)); };
        static std::vector<std::string> pool; if (pool.empty()) for (unsigned i = 0; i < 256; i++) pool.push_back(text(7, i, (i * 37) % 200));
        auto push_pool = [&](unsigned s, uint64_t q) { HT_DECL_EVENT(HvSeq, e); HT_Timeline* tl = tls[shared ? 0 : s]; ht_timeline_init_event(tl, HT_EVENT(&e)); e.src = s; e.seq = q; e.text = pool[(s * 91 + q * 17) & 255].c_str(); ht_timeline_push_event(tl, HT_EVENT(&e)); };
        (void)push;
        for (unsigned s = 0; s < ns; s++) pt.emplace_back([&, s] {
            Rng q(a.seed * 7 + cn * 13 + s); unsigned n = (unsigned)q.range(5, 250);
            for (unsigned i = 0; i < n; i++) { push_pool(s, last[s]++); if (q.chance(5)) ht_timeline_flush(tls[shared ? 0 : s]); if (q.chance(8)) us((long)q.below(400)); }
        });
        struct itimerval iv = {{0, 0}, {0, 0}}; if (r.chance(40)) iv.it_interval.tv_usec = iv.it_value.tv_usec = (long)r.range(200, 2000);
        setitimer(ITIMER_REAL, &iv, nullptr);
        for (auto& t : pt) t.join();
        // every client that stays must be served: keep tracing until each has seen an event (bounded only by the run's time limit)
        uint64_t t0 = now_us(); unsigned beats = 0;
        for (;;) {
            bool all = true;
            for (auto& c : cs) if (c->kind <= STALL && !c->finished && c->have.load() <= g_meta) all = false;
            if (all) break;
            for (unsigned i = 0; i < 20; i++) push_pool(0, last[0]++); ht_timeline_flush(tls[0]); beats++; us(500);
            if (now_us() - t0 > 60u * 1000000) { violation("client-not-served", "case %" PRIu64 ": a connected client received no events within 60 s while tracing went on", cn); break; }
        }
        for (unsigned s = 0; s < ns; s++) push_pool(s, last[s]++);
        for (auto t : tls) ht_timeline_flush(t);
        stopping.store(1);
        unsigned how = (unsigned)r.below(3);
        if (how >= 1) ht_tcp_listener_stop(lst);
        if (how == 2) { ht_tcp_listener_stop(lst); push_pool(0, 1u << 30); ht_timeline_flush(tls[0]); } // deliveries after stop are ignored
        if (owner < 0) ht_tcp_listener_destroy(lst);
        if (owner >= 0) ht_timeline_destroy(tls[owner]);
        stopping.store(2);
        memset(&iv, 0, sizeof iv); setitimer(ITIMER_REAL, &iv, nullptr);
        t0 = now_us();
        for (;;) { bool all = true; for (auto& c : cs) all &= c->finished.load(); if (all) break; us(500); if (now_us() - t0 > 60u * 1000000) { for (auto& c : cs) if (!c->finished) { violation("connection-left-open", "case %" PRIu64 ": one of %u clients (kind %d, %zu bytes received) still waits 60 s after the listener was destroyed", cn, nc, c->kind, c->have.load()); break; } done(); _exit(1); } }
        hv_perturb_set(0, 0);
        for (auto& t : ct) t.join();
        for (unsigned i = 0; i < tls.size(); i++) if ((int)i != owner) { if (owner < 0) ht_timeline_unregister_all_listeners(tls[i]); else ht_timeline_unregister_all_listeners(tls[i]); ht_timeline_destroy(tls[i]); }
        if (nc > 6) hv::stat("crowds");
        int want_cb = 0, may_cb = 0; for (auto& c : cs) { want_cb += c->connected && c->kind <= STALL; may_cb += c->connected; }
        if (g_connected < want_cb || g_connected > may_cb) violation("connected-callback-count", "case %" PRIu64 ": %d calls for %d..%d connections", cn, g_connected.load(), want_cb, may_cb);
        // ---- offline checks of what each client received
        Hash h; unsigned useful = 0;
        for (unsigned ci = 0; ci < cs.size(); ci++) {
            Client& c = *cs[ci]; bool stays = c.kind <= STALL;
            auto bad = [&](const char* key, const std::string& d) { violation(key, "case %" PRIu64 " client %u kind %d (of %u; %u sources, listener buffer %zu, %s): %s", cn, ci, c.kind, nc, ns, lbuf, unser ? "unserialised" : "serialised", d.c_str()); };
            if (stays && !c.connected) { bad("refused", "connect failed: " + std::to_string(c.err)); continue; }
            if (stays && !c.eof) bad("connection-reset", "no orderly end: errno " + std::to_string(c.err));
            if (c.got.empty()) { if (stays) bad("no-header", "nothing received"); continue; }
            Decoder d(c.got.data(), c.got.size(), uint_code); d.all();
            bool left = c.kind == LEAVE_FIN || c.kind == LEAVE_RST;
            if (!d.ok && !(left && d.err.compare(0, 9, "truncated") == 0)) { bad("undecodable-stream", d.err + " at byte " + std::to_string(d.pos) + " of " + std::to_string(c.got.size())); continue; }
            if (!d.ok && !left) { bad("torn-stream", d.err); continue; }
            if (!left && d.pos != c.got.size()) { bad("torn-stream", "trailing bytes"); continue; }
            // header: endianness first, then every class, before any event
            size_t i = 0; std::set<uint32_t> seen; size_t meta_end = 0;
            if (d.events.empty()) { if (!left) bad("no-header", "no complete event"); continue; }
            if (d.events[0].klass != 0) { bad("no-header", "stream does not start with the byte-order declaration"); continue; }
            std::map<uint32_t, unsigned> fields;
            for (i = 1; i < d.events.size(); i++) {
                DEvent& e = d.events[i];
                if (e.klass == 2) { uint32_t id = (uint32_t)Decoder::find(e.vals, "info_klass_id")->u; if (!seen.insert(id).second) bad("class-described-twice", std::to_string(id)); }
                else if (e.klass == 3) fields[(uint32_t)Decoder::find(e.vals, "info_klass_id")->u]++;
                else if (e.klass_name == "HT_SystemInfoEvent") {}
                else break;
                meta_end = e.end;
            }
            bool meta_complete = seen.size() == nklass; for (size_t k = 0; k < nklass && meta_complete; k++) meta_complete = seen.count(kl[k]->klass_id) && fields[kl[k]->klass_id] == kl[k]->type_info->fields_count;
            if (!meta_complete && !(left && i == d.events.size())) { bad("incomplete-description", std::to_string(seen.size()) + " of " + std::to_string(nklass) + " classes"); continue; }
            std::vector<int64_t> next(ns, -1);
            for (; i < d.events.size(); i++) {
                DEvent& e = d.events[i];
                if (e.klass_name != "HvSeq") { bad("foreign-event", e.klass_name); break; }
                uint64_t s = Decoder::find(e.vals, "src")->u, q = Decoder::find(e.vals, "seq")->u; const std::string& t = Decoder::find(e.vals, "text")->s;
                if (s >= ns || q >= last[s]) { bad("foreign-event", "source " + std::to_string(s) + " seq " + std::to_string(q)); break; }
                if (t != pool[(s * 91 + q * 17) & 255]) { bad("modified-event", "source " + std::to_string(s) + " seq " + std::to_string(q)); break; }
                if (next[s] >= 0 && (int64_t)q != next[s]) { bad((int64_t)q < next[s] ? "duplicate-or-reordered" : "gap", "source " + std::to_string(s) + " seq " + std::to_string(q) + " expected " + std::to_string(next[s])); break; }
                next[s] = (int64_t)q + 1; hv::stat("events_checked"); h.add(s * 7 + (i == 0));
            }
            if (stays && !violated()) for (unsigned s = 0; s < ns; s++) if (next[s] != (int64_t)last[s]) bad("lost-tail", "source " + std::to_string(s) + " ends at " + std::to_string(next[s]) + " of " + std::to_string(last[s]));
            h.add(c.got.size()); if (i > 0 && c.got.size() > meta_end) useful++;
        }
        if (useful >= 1) sig(h.h);
        hv::stat("cases"); hv::stat("clients", nc); hv::stat("clients_that_received_events", useful);
        if (cn < 2) sample("sources=%u shared=%d listener_buffer=%zu unserialised=%d clients=%u with_events=%u end=%s", ns, shared, lbuf, unser, nc, useful, how == 0 ? "destroy" : how == 1 ? "stop" : "stop-twice");
    }
    if (g_zero) hv::stat("clients_with_descriptor_0", g_zero.load());
    ht_deinit(); done(); return 0;
}
