// P18: stream sources hand over exactly the bytes sent; start / wait / stop / destroy always return and stop is final.
#include "hv_parse.hpp"
#include "hv_stream.hpp"
#include <hawktracer/base_types.h>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <memory>
using namespace hv;
using HawkTracer::ClientUtils::TCPClientStream;
static const unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER;
static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
// Descriptors of the trace file and of sockets that are open now; every source is gone between two cases.
#include <dirent.h>
#include <unistd.h>
static unsigned open_sources(const std::string& dir) {
    unsigned n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0;
    while (dirent* e = readdir(d)) { char l[400]; ssize_t k = readlinkat(dirfd(d), e->d_name, l, sizeof l - 1); if (k <= 0) continue; l[k] = 0; if (!strncmp(l, "socket:", 7) || !strncmp(l, dir.c_str(), dir.size())) n++; }
    closedir(d); return n;
}
static void us(long n) { struct timespec ts = {n / 1000000, (n % 1000000) * 1000}; nanosleep(&ts, 0); }
static void mask_alarm() { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_BLOCK, &m, nullptr); }
// ---- deadline monitor: what the case is waiting for, and since when
static std::atomic<const char*> g_phase{nullptr}; static std::atomic<uint64_t> g_since{0}, g_case{0}; static std::atomic<int> g_kind{0}; static uint64_t g_limit = 20000;
struct Phase { const char* old; Phase(const char* p) : old(g_phase.load()) { g_since = now_ms(); g_phase = p; } ~Phase() { g_since = now_ms(); g_phase = old; } };
static void watchdog() {
    mask_alarm();
    for (;;) { us(50000); const char* p = g_phase.load(); uint64_t s = g_since.load(); if (p && s && now_ms() > s + g_limit && g_phase.load() == p && g_since.load() == s) { violation("never-returns", "case %llu kind %d: %s did not return within %llu ms", (unsigned long long)g_case.load(), g_kind.load(), p, (unsigned long long)g_limit); done(); _exit(0); } }
}
// ---- injected faults
static std::atomic<unsigned> g_fault{0}; static std::atomic<uint64_t> g_fault_seq{0};
extern "C" ssize_t __real_recv(int, void*, size_t, int);
extern "C" ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
    unsigned p = g_fault.load(std::memory_order_relaxed);
    if (p) { uint64_t x = g_fault_seq.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed); x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
        if (x % 100 < p) { if (x & 256) { stat("interrupted_recv"); errno = EINTR; return -1; } if (n > 1) n = 1 + (x >> 10) % (n < 40 ? n : 40); } }
    return __real_recv(fd, b, n, f);
}
struct Cookie { std::vector<uint8_t> d; size_t pos, fail_at; Rng r; };
static Cookie* g_cookie; static std::string g_cookie_path; static std::atomic<bool> g_cookie_used{false};
static ssize_t ck_read(void* c, char* b, size_t n) {
    Cookie* k = (Cookie*)c; if (k->pos >= k->fail_at) { errno = EIO; return -1; }
    size_t m = std::min({n, k->d.size() - k->pos, k->fail_at - k->pos}); if (m > 1 && k->r.chance(60)) m = k->r.range(1, m);
    memcpy(b, k->d.data() + k->pos, m); k->pos += m; return (ssize_t)m;
}
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    if (g_cookie && p == g_cookie_path) { g_cookie_used = true; g_cookie->pos = 0; cookie_io_functions_t io = {ck_read, nullptr, nullptr, nullptr}; return fopencookie(g_cookie, "rb", io); }
    return __real_fopen(p, m);
}
// Moves one of the harness's own descriptors out of the way: the low numbers, 0 among them, are for the library.
static int high(int fd) { if (fd < 0) return fd; int h = fcntl(fd, F_DUPFD, 60); close(fd); return h; }
// ---- a peer
struct Peer {
    int l = -1, port = 0; std::thread t; std::atomic<bool> quit{false}, accepted{false};
    void bind_only() { l = high(socket(AF_INET, SOCK_STREAM, 0)); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int on = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(l, (sockaddr*)&a, sizeof a)) { perror("bind"); _exit(3); } socklen_t n = sizeof a; getsockname(l, (sockaddr*)&a, &n); port = ntohs(a.sin_port); }
    void serve(std::vector<uint8_t> d, uint64_t seed, bool close_after, size_t upto, long delay_us) {
        t = std::thread([=] {
            mask_alarm(); Rng r(seed); us(delay_us); if (quit) return; listen(l, 4);
            int s = -1; while (!quit && s < 0) { fd_set f; FD_ZERO(&f); FD_SET(l, &f); struct timeval w = {0, 20000}; if (select(l + 1, &f, nullptr, nullptr, &w) > 0) s = high(accept(l, nullptr, nullptr)); }
            if (s < 0) return;
            accepted = true;
            int on = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); int big = r.chance(30);
            struct timeval tv = {0, 100000}; setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
            size_t p = 0;
            while (p < upto && !quit) {
                size_t n = std::min(upto - p, (size_t)(big ? r.range(1, 5000) : r.range(1, 60)));
                ssize_t w = send(s, d.data() + p, n, MSG_NOSIGNAL); if (w < 0) { if (errno == EINTR || errno == EAGAIN) continue; break; }
                p += (size_t)w; if (r.chance(big ? 20 : 8)) us((long)r.below(200));
            }
            if (!close_after) { char c[64]; for (;;) { fd_set f; FD_ZERO(&f); FD_SET(s, &f); struct timeval w = {0, 20000}; int k = select(s + 1, &f, nullptr, nullptr, &w); if (k > 0 && recv(s, c, sizeof c, 0) <= 0) break; if (quit) break; } }
            close(s);
        });
    }
    void end() { quit = true; if (t.joinable()) { Phase p("(harness) peer"); t.join(); } if (l >= 0) close(l); l = -1; }
    ~Peer() { end(); }
};
// ---- streams of events
struct Trace { std::vector<uint8_t> d; std::vector<std::string> want; std::vector<size_t> ends; };
static Trace make_trace(Rng& r, size_t ne) {
    Trace t; Writer w; w.endianness(0); size_t nk = r.range(1, 5); auto ks = random_klasses(r, nk, 3); for (auto& k : ks) write_klass(w, ks, k, UC);
    for (size_t i = 0; i < ne; i++) { DEvent e = write_event(w, ks, ks[r.below(nk)], r, 40); t.want.push_back(canon_flat(e)); t.ends.push_back(w.out.size()); }
    t.d = w.out; return t;
}
static size_t complete(const Trace& t, size_t upto) { size_t n = 0; while (n < t.ends.size() && t.ends[n] <= upto) n++; return n; }
static void put(const std::string& p, const std::vector<uint8_t>& d) { FILE* f = __real_fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
// reads the stream to its end by random read_byte/read_data calls; returns false on a mismatch
static bool read_all(hp::Stream& s, const std::vector<uint8_t>& d, size_t upto, Rng& r, const char* what, bool strict_end = true) {
    size_t pos = 0; bool bytes = r.chance(30); std::vector<char> b;
    for (;;) {
        Phase p("a read");
        if (bytes || r.chance(40)) {
            int c = s.read_byte();
            if (c < 0) { if (pos != upto) { violation("short-stream", "%s: end of stream (%d) at byte %zu of %zu, next byte is 0x%02x", what, c, pos, upto, d[pos]); return false; } break; }
            if (pos >= upto) { violation("invented-byte", "%s: byte 0x%02x after the end (%zu)", what, c, upto); return false; }
            if (c != d[pos]) { violation("wrong-byte", "%s: byte %zu is 0x%02x instead of 0x%02x", what, pos, c, d[pos]); return false; }
            pos++;
        } else {
            size_t n = r.chance(10) ? r.range(1, 6000) : r.range(1, 20); if (r.chance(10)) n = upto - pos; if (!n) continue;
            b.assign(n, (char)0x5a); bool ok = s.read_data(b.data(), n);
            if (ok && pos + n > upto) { violation("invented-byte", "%s: %zu bytes delivered at %zu of %zu", what, n, pos, upto); return false; }
            if (!ok) { if (pos + n <= upto) { violation("short-stream", "%s: reading %zu bytes at %zu of %zu failed", what, n, pos, upto); return false; } break; }
            if (memcmp(b.data(), d.data() + pos, n)) { size_t i = 0; while ((uint8_t)b[i] == d[pos + i]) i++; violation("wrong-byte", "%s: byte %zu is 0x%02x instead of 0x%02x", what, pos + i, (uint8_t)b[i], d[pos + i]); return false; }
            pos += n;
        }
    }
    if (strict_end) { Phase p("a read at the end"); if (s.read_byte() >= 0) { violation("invented-byte", "%s: a byte after the end of the stream", what); return false; } char c; if (s.read_data(&c, 1)) { violation("invented-byte", "%s: data after the end of the stream", what); return false; } }
    stat("bytes_checked", pos); return true;
}
struct Watch { // events reported by one reader, compared as they come
    const Trace* t; std::atomic<size_t> n{0}; std::atomic<bool> stopped{false}; const char* what;
    void on(const hp::Event& e) {
        if (stopped.load()) violation("event-after-stop", "%s: event %zu reported after stop() returned", what, n.load());
        std::string s = pevent(e); if (!s.compare(0, 13, "HT_Endianness") || !s.compare(0, 13, "HT_EventKlass")) return;
        size_t i = n.load(); if (i >= t->want.size()) violation("invented-event", "%s: event %zu of %zu: %s", what, i, t->want.size(), s.substr(0, 200).c_str());
        else if (s != t->want[i]) violation("wrong-event", "%s: event %zu is %s instead of %s", what, i, s.substr(0, 300).c_str(), t->want[i].substr(0, 300).c_str());
        n.store(i + 1);
    }
};
int main(int argc, char** argv) {
    Args a(argc, argv); g_limit = a.num("limit", 20000); bool low = a.num("low", 0) != 0; // descriptor 0 is free, as in a daemon
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr);
    std::thread(watchdog).detach();
    std::string dir = getenv("HV_TMP") ? getenv("HV_TMP") : "/tmp"; dir += "/p18-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    std::string file = dir + "/f";
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        if (low) close(0);
        uint64_t seed = a.seed * 7919 + cn; Rng r(seed); hv_perturb_set(r.chance(60) ? (unsigned)r.range(3, 60) : 0, seed);
        int kind = (int)a.num("kind", r.below(9)); g_case = cn; g_kind = kind; Hash h; h.add((uint64_t)kind);
        g_fault = r.chance(40) ? (unsigned)r.range(5, 60) : 0;
        bool timer = kind >= 1 && kind <= 3 && r.chance(30); if (timer) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = it.it_interval.tv_usec = (long)r.range(200, 3000); setitimer(ITIMER_REAL, &it, nullptr); stat("timer_cases"); }
        switch (kind) {
        case 0: { // file, byte for byte
            std::vector<uint8_t> d(r.chance(10) ? 0 : r.chance(30) ? r.range(4000, 20000) : r.range(1, 300)); for (auto& c : d) c = (uint8_t)(r.chance(30) ? 0xff : r.next()); put(file, d);
            hp::FileStream s(file); if (r.chance(20)) s.stop();
            int rounds = 1 + (int)r.below(3);
            for (int i = 0; i < rounds; i++) {
                if (!s.start()) { violation("start-failed", "file stream"); break; }
                if (i + 1 < rounds && r.chance(50)) { for (size_t k = r.below(d.size() + 1); k; k--) s.read_byte(); if (r.chance(60)) s.stop(); continue; } // left in the middle and started again
                if (!read_all(s, d, d.size(), r, "file")) break;
                if (r.chance(70)) s.stop();
            }
            h.add(d.size()); h.add(d.data(), std::min<size_t>(d.size(), 64)); stat("file_cases"); break;
        }
        case 1: { // TCP, byte for byte
            std::vector<uint8_t> d(r.chance(5) ? 0 : r.chance(30) ? r.range(4000, 30000) : r.range(1, 600)); for (auto& c : d) c = (uint8_t)(r.chance(30) ? 0xff : r.next());
            Peer p, p2; p.bind_only(); p.serve(d, seed, true, d.size(), (long)r.below(3000));
            TCPClientStream s("127.0.0.1", (uint16_t)p.port);
            { Phase ph("start() with a server coming up"); if (!s.start()) violation("start-failed", "TCP stream"); }
            bool again = r.chance(20);
            if (again) { // leave in the middle and start again: the new connection's bytes only
                if (r.chance(60)) { char c; if (d.size() && !s.read_data(&c, 1)) violation("short-stream", "TCP: first byte of %zu", d.size()); us((long)r.below(1000)); }
                { Phase ph("stop()"); if (r.chance(60)) s.stop(); }
                p.end(); p.quit = false; p2.bind_only();
                sockaddr_in x; memset(&x, 0, sizeof x); // same port again
                x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); x.sin_port = htons((uint16_t)p.port);
                int l = high(socket(AF_INET, SOCK_STREAM, 0)), on = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
                if (bind(l, (sockaddr*)&x, sizeof x)) { close(l); stat("port_taken"); break; }
                close(p2.l); p2.l = l; for (auto& c : d) c = (uint8_t)r.next(); p2.serve(d, seed + 1, true, d.size(), (long)r.below(2000));
                { Phase ph("start() again"); if (!s.start()) violation("start-failed", "restarted TCP stream"); }
            }
            read_all(s, d, d.size(), r, again ? "restarted TCP" : "TCP");
            if (r.chance(60)) { Phase ph("stop()"); s.stop(); if (r.chance(50)) s.stop(); }
            h.add(d.size()); h.add(seed); stat("tcp_cases"); break;
        }
        case 2: case 3: { // reader over TCP, to completion (2) or stopped at any moment (3)
            Trace t = make_trace(r, r.below(kind == 2 ? 60 : 200)); bool closes = kind == 2 || r.chance(40); size_t upto = kind == 2 ? (r.chance(70) ? t.d.size() : r.below(t.d.size() + 1)) : r.chance(30) ? 0 : r.chance(50) ? t.d.size() : r.below(t.d.size() + 1);
            Peer p; p.bind_only(); p.serve(t.d, seed, closes, upto, (long)r.below(2000));
            Watch w; w.t = &t; w.what = kind == 2 ? "TCP" : "TCP, stopped"; hp::KlassRegister reg; std::thread waiter; bool wait2 = kind == 3 && r.chance(40), other = r.chance(40), slow = kind == 3 && r.chance(30); long after = (long)r.below(r.chance(50) ? 300 : 6000);
            {
                std::unique_ptr<hp::ProtocolReader> rd(new hp::ProtocolReader(&reg, std::unique_ptr<hp::Stream>(new TCPClientStream("127.0.0.1", (uint16_t)p.port)), true));
                rd->register_events_listener([&](const hp::Event& e) { w.on(e); if (slow) us(300); });
                { Phase ph("start() with a server coming up"); if (!rd->start()) { violation("start-failed", "reader on TCP"); } }
                if (kind == 2) {
                    { Phase ph("wait_for_complete() after the peer closed"); rd->wait_for_complete(); }
                    if (!rd->eos()) violation("not-complete", "eos() is false after wait_for_complete()");
                } else {
                    if (wait2) waiter = std::thread([&] { mask_alarm(); rd->wait_for_complete(); });
                    us(after);
                }
                int stops = kind == 3 && !wait2 && r.chance(15) ? 0 : (int)r.range(1, 3);
                for (int i = 0; i < stops; i++) {
                    Phase ph(kind == 2 ? "stop() after completion" : upto < t.d.size() ? "stop() of an idle or half-fed reader" : "stop() of a busy reader");
                    if (other) { std::thread q([&] { rd->stop(); }); q.join(); } else rd->stop();
                    w.stopped = true; if (!rd->eos()) violation("not-complete", "eos() is false after stop()");
                }
                if (waiter.joinable()) { Phase ph("wait_for_complete() while another thread stops the reader"); waiter.join(); }
                if (stops && r.chance(30)) us(300);
                Phase ph("destruction of the reader"); rd.reset();
            }
            w.stopped = true;
            size_t full = complete(t, upto), n = w.n.load();
            if (kind == 2 ? n != full : n > full) violation(n < full ? "events-lost" : "invented-event", "%s: %zu events reported, %zu sent completely", w.what, n, full);
            h.add(n); h.add(upto); h.add(t.want.size()); stat(kind == 2 ? "tcp_complete" : "tcp_stopped"); stat("events_checked", n);
            if (kind == 3) stat(n == full ? "stopped_at_end" : "stopped_midway");
            if (cn < 30 && t.want.size()) sample("kind %d: %zu of %zu events of a %zu-byte stream (%zu sent), peer %s", kind, n, t.want.size(), t.d.size(), upto, closes ? "closes" : "stays");
            break;
        }
        case 4: { // nobody listens: stop() from another thread ends the waiting start()
            Peer p; p.bind_only(); Trace t = make_trace(r, 20); bool late = r.chance(40); if (late) p.serve(t.d, seed, true, t.d.size(), (long)r.below(25000));
            Watch w; w.t = &t; w.what = "start while stopping"; hp::KlassRegister reg; bool whole = r.chance(50); long d1 = (long)r.below(25000);
            std::unique_ptr<TCPClientStream> s(new TCPClientStream("127.0.0.1", (uint16_t)p.port)); TCPClientStream* sp = s.get(); std::unique_ptr<hp::ProtocolReader> rd;
            if (whole) { rd.reset(new hp::ProtocolReader(&reg, std::move(s), true)); rd->register_events_listener([&](const hp::Event& e) { w.on(e); }); }
            std::atomic<bool> started{false}; std::atomic<int> ret{-1};
            std::thread q([&] { mask_alarm(); started = true; ret = whole ? rd->start() : sp->start(); });
            while (!started) std::this_thread::yield();
            us(500 + d1);
            { Phase ph("start() waiting for a server while another thread stops it"); int tries = 0; while (ret.load() < 0) { if (whole) rd->stop(); else sp->stop(); us(2000); if (++tries == 1) stat("cancelled_starts"); } q.join(); }
            { Phase ph("stop()"); if (whole) rd->stop(); else sp->stop(); } w.stopped = true;
            h.add((uint64_t)ret.load()); h.add(w.n.load()); h.add((uint64_t)d1 / 1000); Phase ph("destruction"); rd.reset(); s.reset(); break;
        }
        case 5: case 6: { // reader over a file: to completion, stopped at any moment, or with a read error on the way
            Trace t = make_trace(r, r.below(300)); size_t upto = r.chance(60) ? t.d.size() : r.below(t.d.size() + 1); std::vector<uint8_t> d(t.d.begin(), t.d.begin() + (long)upto); put(file, d);
            Cookie ck{d, 0, (size_t)-1, Rng(seed)}; bool fail = kind == 5 && r.chance(40); if (fail) { if (r.chance(80)) ck.fail_at = r.below(d.size() + 1); g_cookie_path = file; g_cookie = &ck; g_cookie_used = false; }
            Watch w; w.t = &t; w.what = "file"; hp::KlassRegister reg; bool slow = kind == 6 && r.chance(30); long after = (long)r.below(2000); int stops = (int)r.below(3);
            std::unique_ptr<hp::ProtocolReader> rd(new hp::ProtocolReader(&reg, std::unique_ptr<hp::Stream>(new hp::FileStream(file)), true)); rd->register_events_listener([&](const hp::Event& e) { w.on(e); if (slow) us(100); });
            if (r.chance(10)) rd->stop();
            if (!rd->start() && !(fail && ck.fail_at == 0)) violation("start-failed", "reader on a file");
            if (kind == 5) { Phase ph(fail && ck.fail_at != (size_t)-1 ? "wait_for_complete() after a read error" : "wait_for_complete() on a file"); rd->wait_for_complete(); } else us(after);
            for (int i = 0; i < stops; i++) { Phase ph("stop() on a file"); rd->stop(); w.stopped = true; }
            { Phase ph("destruction of the reader"); rd.reset(); } w.stopped = true; g_cookie = nullptr;
            bool faulted = fail && g_cookie_used && ck.fail_at < d.size(); size_t full = complete(t, faulted ? ck.fail_at : upto), n = w.n.load();
            if (kind == 5 ? n != full : n > full) violation(n < full ? "events-lost" : "invented-event", "file%s: %zu events reported, %zu complete", faulted ? " with a read error" : "", n, full);
            if (faulted) stat("read_errors"); stat("file_reader_cases"); stat("events_checked", n); h.add(n); h.add(upto); h.add(faulted); break;
        }
        case 7: { // sources that cannot be read
            hp::KlassRegister reg; unsigned n = 0; bool dirs = r.chance(50); h.add((uint64_t)dirs);
            hp::ProtocolReader rd(&reg, std::unique_ptr<hp::Stream>(new hp::FileStream(dirs ? dir : dir + "/absent")), true); rd.register_events_listener([&](const hp::Event&) { n++; });
            bool ok = rd.start(); if (!dirs && ok) violation("started-on-nothing", "start() succeeded without a file");
            if (ok) { Phase ph("wait_for_complete() on an unreadable source"); rd.wait_for_complete(); }
            if (r.chance(50)) rd.stop();
            if (n) violation("invented-event", "%u events from an unreadable source", n);
            { Peer p; p.bind_only(); TCPClientStream s("127.0.0.1", (uint16_t)p.port, false); Phase ph("start() without waiting for a server"); if (s.start()) violation("started-on-nothing", "start() succeeded without a server"); if (s.is_connected()) violation("started-on-nothing", "connected without a server"); if (r.chance(50)) s.stop(); }
            stat("unreadable_sources"); break;
        }
        default: { // raw TCP stream stopped while a read is waiting
            std::vector<uint8_t> d(r.range(1, 200)); for (auto& c : d) c = (uint8_t)r.next(); Peer p; p.bind_only(); p.serve(d, seed, false, d.size(), 0); TCPClientStream s("127.0.0.1", (uint16_t)p.port); { Phase ph("start()"); s.start(); }
            std::atomic<size_t> got{0}; bool bad = false; std::thread q([&] { mask_alarm(); int c; size_t i = 0; while ((c = s.read_byte()) >= 0) { if (i >= d.size() || c != d[i]) bad = true; i++; got = i; } });
            us((long)r.below(4000)); { Phase ph("stop() while a read is waiting"); s.stop(); } { Phase ph("a read waiting while the stream is stopped"); q.join(); }
            if (bad) violation("wrong-byte", "TCP: wrong byte before stop()");
            h.add(got.load()); h.add(d.size()); stat("stopped_reads"); break;
        }
        }
        if (timer) { struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr); }
        g_phase = nullptr; sig(h.h); hv::stat("cases");
        if (unsigned left = open_sources(dir)) { violation("descriptor-left-open", "kind %d: %u descriptors of sources still open after they were destroyed", kind, left); break; }
    }
    remove(file.c_str()); rmdir(dir.c_str()); done(); return 0;
}
