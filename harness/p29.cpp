// P29: every system call the library makes for a destination or a source fails, is interrupted or does only part of its work, once in turn.
#include "hv_ev.hpp"
#include "hv_parse.hpp"
#include "hv_stream.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/registry.h>
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <system_error>
using namespace hv;
static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(long us) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&ts, 0); }
// ---------------------------------------------------------------- the fault layer
enum Fn { F_FOPEN, F_WRITE, F_READ, F_FCLOSE, F_SOCKET, F_SETSOCKOPT, F_BIND, F_LISTEN, F_ACCEPT, F_SEND, F_CLOSE, F_CONNECT, F_RECV, F_THREAD, F_N };
static const char* g_name[F_N] = {"fopen", "write", "read", "fclose", "socket", "setsockopt", "bind", "listen", "accept", "send", "close", "connect", "recv", "thread_start"};
enum Kind { ONCE, BURST, FOREVER, PARTIAL, PARTIAL_THEN_FAIL };
struct Mode { Fn fn; Kind kind; int err; };
static const Mode g_modes[] = {
    {F_FOPEN, ONCE, EMFILE}, {F_FOPEN, ONCE, EACCES},
    {F_WRITE, ONCE, ENOSPC}, {F_WRITE, FOREVER, ENOSPC}, {F_WRITE, PARTIAL, 0}, {F_WRITE, PARTIAL_THEN_FAIL, ENOSPC}, {F_WRITE, ONCE, EIO},
    {F_READ, ONCE, EIO}, {F_READ, FOREVER, EIO}, {F_READ, PARTIAL, 0}, {F_FCLOSE, ONCE, EIO},
    {F_SOCKET, ONCE, EMFILE}, {F_SETSOCKOPT, ONCE, ENOMEM}, {F_BIND, ONCE, EADDRINUSE}, {F_LISTEN, ONCE, EADDRINUSE},
    {F_ACCEPT, ONCE, EINTR}, {F_ACCEPT, BURST, ECONNABORTED}, {F_ACCEPT, BURST, EMFILE}, {F_ACCEPT, BURST, ENOBUFS},
    {F_SEND, ONCE, EINTR}, {F_SEND, BURST, EINTR}, {F_SEND, PARTIAL, 0}, {F_SEND, ONCE, ENOBUFS}, {F_SEND, ONCE, ENOMEM}, {F_SEND, FOREVER, ECONNRESET}, {F_SEND, PARTIAL_THEN_FAIL, ENOBUFS}, {F_SEND, PARTIAL_THEN_FAIL, EPIPE},
    {F_CLOSE, ONCE, EINTR}, {F_CLOSE, ONCE, EIO},
    {F_CONNECT, ONCE, EINTR}, {F_CONNECT, BURST, ECONNREFUSED}, {F_CONNECT, ONCE, ENETUNREACH},
    {F_RECV, ONCE, EINTR}, {F_RECV, BURST, EINTR}, {F_RECV, PARTIAL, 0}, {F_RECV, ONCE, ECONNRESET}, {F_RECV, ONCE, ENOMEM},
    {F_THREAD, ONCE, EAGAIN}};
static std::mutex g_m;
static uint64_t g_calls[F_N]; static Mode g_mode; static uint64_t g_at; static bool g_armed, g_fired; static int g_left, g_victim = -1, g_victim_port = 0; static void* g_victim_file; static size_t g_cut; static Rng g_rng(1);
static std::set<int> g_socks; static int g_files_open; static bool g_touched; // a fault was visible (not just a short or repeated call)
struct Hit { bool fail; size_t cut; };
// who: the descriptor or file the call works on; after a lasting failure only this one goes on failing
static Hit fault(Fn fn, int fd, void* file, size_t size) {
    std::lock_guard<std::mutex> l(g_m); Hit h = {false, size}; g_calls[fn]++;
    if (!g_armed || fn != g_mode.fn) return h;
    bool mine = g_fired && fd == g_victim && file == g_victim_file;
    if (!g_fired) { if (g_calls[fn] != g_at) return h; g_fired = true; g_victim = fd; g_victim_file = file; if (fn == F_SEND) { sockaddr_in pa; socklen_t pn = sizeof pa; if (!getpeername(fd, (sockaddr*)&pa, &pn)) g_victim_port = ntohs(pa.sin_port); } g_left = g_mode.kind == BURST ? 4 : 1; mine = true; if (g_mode.kind == PARTIAL || g_mode.kind == PARTIAL_THEN_FAIL) { if (size > 1) h.cut = 1 + (size_t)g_rng.below(size - 1); if (g_mode.kind == PARTIAL_THEN_FAIL) g_left = 1; else g_left = 0; return h; } }
    if (!mine && g_mode.kind != BURST) return h;
    if (g_mode.kind == FOREVER) { h.fail = true; errno = g_mode.err; g_touched = true; return h; }
    if (g_left > 0) { g_left--; h.fail = true; errno = g_mode.err; if (g_mode.err != EINTR) g_touched = true; }
    return h;
}
struct Ck { int fd; unsigned reads; }; static bool g_first_read; // the very first read of a file failed
static ssize_t ck_write(void* v, const char* b, size_t n) { // what the C library does for a real file: goes on after a short write, reports what it got rid of
    Ck* c = (Ck*)v; size_t w = 0; while (w < n) { Hit h = fault(F_WRITE, -1, v, n - w); if (h.fail) break; ssize_t k = write(c->fd, b + w, h.cut); if (k <= 0) break; w += (size_t)k; } return (ssize_t)w; }
static ssize_t ck_read(void* v, char* b, size_t n) { Hit h = fault(F_READ, -1, v, n); if (h.fail && !((Ck*)v)->reads) g_first_read = true; ((Ck*)v)->reads++; if (h.fail) return -1; return read(((Ck*)v)->fd, b, h.cut); }
static int ck_close(void* v) { Ck* c = (Ck*)v; Hit h = fault(F_FCLOSE, -1, v, 0); close(c->fd); delete c; { std::lock_guard<std::mutex> l(g_m); g_files_open--; } if (h.fail) { errno = EIO; return -1; } return 0; }
extern "C" {
FILE* hv_sys_fopen(const char* p, const char* m) {
    Hit h = fault(F_FOPEN, -1, nullptr, 0); if (h.fail) return nullptr;
    int fd = open(p, strchr(m, 'w') ? O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC : O_RDONLY | O_CLOEXEC, 0644); if (fd < 0) return nullptr;
    { std::lock_guard<std::mutex> l(g_m); g_files_open++; }
    cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close}; return fopencookie(new Ck{fd, 0}, m, io);
}
int hv_sys_socket(int a, int b, int c) { if (fault(F_SOCKET, -1, nullptr, 0).fail) return -1; int fd = socket(a, b, c); std::lock_guard<std::mutex> l(g_m); if (fd >= 0) g_socks.insert(fd); return fd; }
int hv_sys_setsockopt(int fd, int a, int b, const void* v, socklen_t n) { if (fault(F_SETSOCKOPT, fd, nullptr, 0).fail) return -1; return setsockopt(fd, a, b, v, n); }
int hv_sys_bind(int fd, const sockaddr* a, socklen_t n) { if (fault(F_BIND, fd, nullptr, 0).fail) return -1; return bind(fd, a, n); }
int hv_sys_listen(int fd, int n) { if (fault(F_LISTEN, fd, nullptr, 0).fail) return -1; return listen(fd, n); }
int hv_sys_accept(int fd, sockaddr* a, socklen_t* n) { if (fault(F_ACCEPT, fd, nullptr, 0).fail) return -1; int c = accept(fd, a, n); int e = errno; { std::lock_guard<std::mutex> l(g_m); if (c >= 0) g_socks.insert(c); } errno = e; return c; }
ssize_t hv_sys_send(int fd, const void* p, size_t n, int f) { Hit h = fault(F_SEND, fd, nullptr, n); if (h.fail) return -1; return send(fd, p, h.cut, f); }
ssize_t hv_sys_recv(int fd, void* p, size_t n, int f) { Hit h = fault(F_RECV, fd, nullptr, n); if (h.fail) return -1; return recv(fd, p, h.cut, f); }
int hv_sys_connect(int fd, const sockaddr* a, socklen_t n) { if (fault(F_CONNECT, fd, nullptr, 0).fail) return -1; return connect(fd, a, n); }
int hv_sys_shutdown(int fd, int how) { { std::lock_guard<std::mutex> l(g_m); if (!g_socks.count(fd)) violation("foreign-descriptor", "shutdown of descriptor %d, which is not an open socket of the library", fd); } return shutdown(fd, how); }
int hv_sys_close(int fd) {
    { std::lock_guard<std::mutex> l(g_m); if (!g_socks.erase(fd)) violation("foreign-descriptor", "close of descriptor %d, which is not an open socket of the library", fd);
      if (g_fired && fd == g_victim && g_mode.fn != F_CLOSE) g_victim = -2; } // the number may be used again, for a connection that does not fail
    Hit h = fault(F_CLOSE, fd, nullptr, 0); int e = errno, r = close(fd); if (h.fail) { errno = e; return -1; } return r;
}
void hv_real_thread(void*, void*, void (*)()) __asm__("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void hv_sys_thread(void* self, void* state, void (*dep)()) { if (fault(F_THREAD, -1, nullptr, 0).fail) throw std::system_error(EAGAIN, std::generic_category()); hv_real_thread(self, state, dep); }
int hv_sys_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* u) { if (fault(F_THREAD, -1, nullptr, 0).fail) return EAGAIN; return pthread_create(t, at, f, u); }
}
static void arm(const Mode* m, uint64_t at, uint64_t seed) { std::lock_guard<std::mutex> l(g_m); memset(g_calls, 0, sizeof g_calls); g_armed = m != nullptr; if (m) g_mode = *m; g_at = at; g_fired = g_touched = g_first_read = false; g_victim = -1; g_victim_port = 0; g_victim_file = nullptr; g_left = 0; g_rng = Rng(seed); }
static bool fired() { std::lock_guard<std::mutex> l(g_m); return g_fired; }
static bool touched() { std::lock_guard<std::mutex> l(g_m); return g_touched; }
static int victim_port() { std::lock_guard<std::mutex> l(g_m); return g_touched ? g_victim_port : 0; }
static std::string g_where;
static void bad(const char* key, const char* fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(key, "%s: %s", g_where.c_str(), b); }
static std::string g_dir; static unsigned UC = HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER; static size_t g_meta;
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; char p[300], t[300]; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); ssize_t k = readlink(p, t, sizeof t - 1); if (k < 0) continue; t[k] = 0; if (!strncmp(t, "socket:", 7) || !strncmp(t, g_dir.c_str(), g_dir.size())) n++; } closedir(d); return n; }
static void closed(const char* when) { // nothing of the library is open any more
    { std::lock_guard<std::mutex> l(g_m); if (!g_socks.empty()) { violation("descriptor-leak", "%s: %s: %zu sockets still open", g_where.c_str(), when, g_socks.size()); for (int s : g_socks) close(s); g_socks.clear(); } if (g_files_open) { violation("descriptor-leak", "%s: %s: %d files still open", g_where.c_str(), when, g_files_open); g_files_open = 0; } }
}
static Bytes slurp(const std::string& p) { Bytes b; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return b; uint8_t t[65536]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); close(fd); return b; }
static std::string text(uint64_t q, size_t len) { std::string t(len, 'x'); for (size_t i = 0; i < len; i++) t[i] = (char)(1 + (q * 7 + i * 13) % 255); return t; }
struct Rec { Bytes b; };
static void rec_cb(TEventPtr e, size_t n, HT_Boolean, void* u) { Rec* r = (Rec*)u; r->b.insert(r->b.end(), e, e + n); }
static void push(HT_Timeline* tl, uint64_t q, size_t len) { std::string t = text(q, len); HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(tl, HT_EVENT(&e)); e.src = 1; e.seq = q; e.text = t.c_str(); ht_timeline_push_event(tl, HT_EVENT(&e)); }
// ---------------------------------------------------------------- trace files
static void judge_file(const char* what, const Bytes& got, const Bytes& sent, bool complete) {
    size_t m = std::min(got.size(), g_meta);
    Decoder d(got.data(), got.size(), UC); d.all();
    if (complete && (!d.ok || d.pos != got.size())) { bad("file-damaged", "%s is not decodable: %s at byte %zu of %zu", what, d.err.c_str(), d.pos, got.size()); return; }
    if (!d.ok && d.err.compare(0, 9, "truncated")) { bad("file-damaged", "%s: %s at byte %zu of %zu; only its end may be missing", what, d.err.c_str(), d.pos, got.size()); return; }
    size_t rest = got.size() - m;
    if (rest > sent.size() || (rest && memcmp(got.data() + m, sent.data(), rest))) { size_t i = 0; while (i < rest && i < sent.size() && got[m + i] == sent[i]) i++; bad("file-damaged", "%s differs from what was delivered at byte %zu (file %zu, delivered %zu); only its end may be missing", what, i, rest, sent.size()); return; }
    if (complete && (m != g_meta || rest != sent.size())) bad("file-incomplete", "%s has %zu of %zu events' bytes", what, rest, sent.size());
}
static void file_case(uint64_t seed) {
    Rng r(seed); size_t bufs[2] = {r.chance(40) ? 0 : r.below(3000), r.chance(30) ? 0 : r.below(300)}; std::string path[2] = {g_dir + "/a", g_dir + "/b"}; unlink(path[0].c_str()); unlink(path[1].c_str());
    HT_Timeline* tl = ht_timeline_create(r.chance(30) ? 0 : r.below(1500), HT_FALSE, HT_TRUE, nullptr, nullptr); Rec rec; ht_timeline_register_listener(tl, rec_cb, &rec);
    HT_FileDumpListener* f[2]; bool broken[2] = {false, false};
    for (int i = 0; i < 2; i++) {
        HT_ErrorCode e = HT_ERR_OK; bool before = touched(); f[i] = ht_file_dump_listener_register(tl, path[i].c_str(), bufs[i], &e);
        if (!f[i]) {
            if (e == HT_ERR_OK) bad("error-not-reported", "creating a file listener failed without an error");
            if (before || !touched()) bad("unprovoked-failure", "creating a file listener failed with %d", e);
            e = HT_ERR_UNKNOWN; f[i] = ht_file_dump_listener_register(tl, path[i].c_str(), bufs[i], &e); if (!f[i] || e != HT_ERR_OK) { bad("not-usable-again", "the second attempt to create the file listener failed with %d", e); ht_timeline_destroy(tl); return; }
        } else { if (e != HT_ERR_OK) bad("wrong-error", "success with error %d", e); if (!before && touched()) { if (g_mode.fn == F_FOPEN) bad("error-not-reported", "a file that could not be opened"); broken[i] = true; } }
    }
    uint64_t q = 0; unsigned rounds = (unsigned)r.range(1, 6);
    for (unsigned k = 0; k < rounds; k++) {
        bool before = touched(); (void)before;
        for (size_t n = r.below(20); n; n--) push(tl, q++, r.chance(10) ? r.below(6000) : r.below(100));
        if (r.chance(60)) {
            ht_timeline_flush(tl);
            for (int i = 0; i < 2; i++) if (r.chance(70)) {
                HT_ErrorCode e = ht_file_dump_listener_flush(f[i], HT_TRUE); Bytes b = slurp(path[i]); bool all = b.size() == g_meta + rec.b.size();
                if (e == HT_ERR_OK && g_meta && !all) bad("flush-claims-success", "flush of file %d reported success, but %zu of %zu bytes are in it", i, b.size(), g_meta + rec.b.size());
                if (e != HT_ERR_OK && !touched()) bad("unprovoked-failure", "flush failed with %d", e);
                if (e == HT_ERR_OK && g_meta && all) judge_file("flushed file", b, rec.b, true);
                if (e != HT_ERR_OK) stat("flush_errors_reported");
            }
        }
    }
    ht_timeline_flush(tl);
    if (r.chance(30)) for (int i = 0; i < 2; i++) ht_file_dump_listener_stop(f[i]);
    ht_timeline_destroy(tl);
    void* vf; bool t; { std::lock_guard<std::mutex> l(g_m); vf = g_victim_file; t = g_touched; } (void)vf;
    Bytes b[2] = {slurp(path[0]), slurp(path[1])};
    if (!g_meta) { g_meta = b[0].size() - rec.b.size(); }
    unsigned whole = 0;
    for (int i = 0; i < 2; i++) { bool all = b[i].size() == g_meta + rec.b.size(); whole += all; judge_file(i ? "file b" : "file a", b[i], rec.b, !t || all); if (!all && t) stat("files_cut"); }
    if (t && whole == 0) bad("other-file-affected", "one file failed but neither is complete");
    closed("after destruction"); Hash h; h.add(seed); h.add(g_mode.fn); h.add(g_at); h.add((uint64_t)(&g_mode - &g_mode)); h.add(g_mode.kind); h.add(g_mode.err); sig(h.h);
}
// ---------------------------------------------------------------- TCP listener
struct Peer { int s = -1; int port = 0; Bytes got; std::mutex m; std::atomic<size_t> have{0}; std::atomic<bool> over{false}; bool reset = false; std::thread t; };
static bool dial(Peer& p, int port) {
    p.s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((unsigned short)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(p.s, (sockaddr*)&a, sizeof a)) { close(p.s); p.s = -1; return false; }
    sockaddr_in me; socklen_t n = sizeof me; getsockname(p.s, (sockaddr*)&me, &n); p.port = ntohs(me.sin_port);
    p.t = std::thread([&p] { uint8_t b[16384]; for (;;) { ssize_t k = recv(p.s, b, sizeof b, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) { p.reset = k < 0; break; } p.got.insert(p.got.end(), b, b + k); p.have.store(p.got.size()); } p.over = true; });
    return true;
}
static int g_port;
static void tcp_case(uint64_t seed) {
    Rng r(seed); size_t lbuf = r.chance(30) ? r.below(60) : r.below(3000); HT_ErrorCode e;
    HT_Timeline* tl = ht_timeline_create(r.chance(30) ? 0 : r.below(1500), HT_FALSE, HT_TRUE, nullptr, nullptr); Rec rec; ht_timeline_register_listener(tl, rec_cb, &rec);
    std::string fp = g_dir + "/beside"; HT_FileDumpListener* fl = ht_file_dump_listener_register(tl, fp.c_str(), 300, &e); if (!fl) { bad("unprovoked-failure", "file listener beside"); ht_timeline_destroy(tl); return; }
    HT_TCPListener* l = nullptr; int port = 0;
    for (int tries = 0; tries < 900; tries++) {
        port = g_port + tries; bool before = touched(); e = HT_ERR_OK;
        try { l = ht_tcp_listener_register(tl, port, lbuf, &e); } catch (const std::exception& x) { bad("exception", "creating a TCP listener let the exception '%s' through a C interface", x.what()); l = nullptr; e = HT_ERR_UNKNOWN; if (touched()) { std::lock_guard<std::mutex> k(g_m); g_socks.clear(); } }
        if (l) { if (e != HT_ERR_OK) bad("wrong-error", "success with error %d", e); if (!before && touched() && g_mode.fn != F_ACCEPT && g_mode.fn != F_CLOSE) bad("error-not-reported", "a TCP listener was created though %s failed", g_name[g_mode.fn]); break; }
        if (e == HT_ERR_OK) bad("error-not-reported", "creating a TCP listener failed without an error");
        { std::lock_guard<std::mutex> k(g_m); if (!g_socks.empty()) violation("descriptor-leak", "%s: %zu sockets left open by a failed creation", g_where.c_str(), g_socks.size()); g_socks.clear(); }
        if (!before && touched()) { l = ht_tcp_listener_register(tl, port, lbuf, &e); if (l) break; } // the port was free: the second attempt works (another program might have the port, so a failure moves on)
    }
    if (!l) { bad("no-listener", "no port could be used"); ht_timeline_destroy(tl); return; }
    g_port = port + 1 < 32000 ? port + 1 : g_port - 800;
    Peer p[2]; uint64_t q = 0; size_t pre[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        if (!dial(p[i], port)) { bad("refused", "client %d could not connect", i); continue; }
        // served within reasonable time: header, then events, unless the connection is given up after a fault
        uint64_t t0 = now_ms(); while (!p[i].over && p[i].have <= g_meta) { pre[i] = 0; push(tl, q++, r.below(40)); ht_timeline_flush(tl); nap(200); if (now_ms() - t0 > 20000) { bad("client-not-served", "client %d got %zu bytes in 20 s", i, p[i].have.load()); break; } }
        for (size_t n = r.below(15); n; n--) push(tl, q++, r.chance(10) ? r.below(6000) : r.below(100));
        if (r.chance(60)) ht_timeline_flush(tl);
    }
    push(tl, q++, 10); ht_timeline_flush(tl);
    if (r.chance(40)) ht_tcp_listener_stop(l);
    ht_timeline_destroy(tl);
    for (auto& x : p) if (x.s >= 0) { uint64_t t0 = now_ms(); while (!x.over) { nap(200); if (now_ms() - t0 > 20000) { bad("connection-left-open", "a client still waits 20 s after the listener was destroyed"); shutdown(x.s, SHUT_RDWR); } } x.t.join(); close(x.s); }
    closed("after destruction");
    int vport = victim_port();
    bool send_fault = touched() && g_mode.fn == F_SEND; unsigned cut = 0;
    for (int i = 0; i < 2; i++) {
        Peer& x = p[i]; if (x.s < 0) continue; Decoder d(x.got.data(), x.got.size(), UC); d.all(); bool complete = d.ok && d.pos == x.got.size();
        if (!g_meta) { for (auto& ev : d.events) if (ev.klass_name == "HvSeq") { g_meta = ev.begin; break; } }
        size_t m = std::min(g_meta, x.got.size()), rest = x.got.size() - m; bool hit = send_fault && (vport ? vport == x.port : true);
        if (!d.ok && d.err.compare(0, 9, "truncated")) { bad("stream-damaged", "client %d: %s at byte %zu of %zu", i, d.err.c_str(), d.pos, x.got.size()); continue; }
        // what follows the description is a gap-free run of what was traced: found in the recorded bytes, to their end unless this connection failed
        size_t at = std::string::npos; if (rest) { auto it = std::search(rec.b.begin(), rec.b.end(), x.got.begin() + (long)m, x.got.end()); if (it == rec.b.end()) { bad("stream-damaged", "client %d received %zu bytes after the description which are not a run of what was traced (%zu bytes)", i, rest, rec.b.size()); continue; } at = (size_t)(it - rec.b.begin()); }
        bool to_end = rest && at + rest == rec.b.size();
        if (hit && !(complete && to_end)) { cut++; continue; }
        if (!complete || !to_end) bad("other-client-affected", "client %d received %zu bytes (complete %d, to the end %d) though its connection did not fail", i, x.got.size(), complete, to_end);
    }
    if (cut > 1) bad("other-client-affected", "both clients were cut off by one failure");
    stat("clients_cut", cut); judge_file("the file beside", slurp(fp), rec.b, true);
    Hash h; h.add(seed); h.add(g_mode.fn); h.add(g_at); h.add(g_mode.kind); h.add(g_mode.err); sig(h.h);
}
// ---------------------------------------------------------------- readers
static void reader_case(uint64_t seed, bool tcp) {
    Rng r(seed); Writer w; w.endianness(0); auto ks = random_klasses(r, r.range(1, 5), 3); std::vector<std::string> want; for (auto& k : ks) write_klass(w, ks, k, UC);
    for (size_t i = r.range(1, 25); i; i--) want.push_back(canon_flat(write_event(w, ks, ks[r.below(ks.size())], r, 20)));
    std::string fp = g_dir + "/in"; bool wait = r.chance(50); int srv = -1, port = 0; std::thread st; std::atomic<bool> stop{false};
    if (!tcp) { FILE* f = fopen(fp.c_str(), "wb"); fwrite(w.out.data(), 1, w.out.size(), f); fclose(f); }
    else {
        srv = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(srv, (sockaddr*)&a, sizeof a)) return; socklen_t n = sizeof a; getsockname(srv, (sockaddr*)&a, &n); port = ntohs(a.sin_port); listen(srv, 16);
        uint64_t ss = r.next(); st = std::thread([&, ss] { Rng q(ss); while (!stop) { struct pollfd pf = {srv, POLLIN, 0}; if (poll(&pf, 1, 20) <= 0) continue; int c = accept(srv, nullptr, nullptr); if (c < 0) continue; size_t p = 0; while (p < w.out.size()) { size_t k = std::min<size_t>(w.out.size() - p, 1 + q.below(400)); ssize_t s = send(c, w.out.data() + p, k, MSG_NOSIGNAL); if (s <= 0) break; p += (size_t)s; if (q.chance(20)) nap(50); } shutdown(c, SHUT_WR); char t[64]; struct pollfd pc = {c, POLLIN, 0}; while (!stop && poll(&pc, 1, 20) == 0) {} (void)t; close(c); } });
    }
    {
        hp::Stream* s = tcp ? (hp::Stream*)new HawkTracer::ClientUtils::TCPClientStream("127.0.0.1", (uint16_t)port, wait) : (hp::Stream*)new hp::FileStream(fp);
        hp::KlassRegister kr; hp::ProtocolReader rd(&kr, std::unique_ptr<hp::Stream>(s), true); std::vector<std::string> got; std::mutex gm; bool again = r.chance(60);
        rd.register_events_listener([&](const hp::Event& e) { std::string nm = e.get_klass()->get_name(); if (!nm.compare(0, 13, "HT_EventKlass") || nm == "HT_EndiannessInfoEvent") return; std::lock_guard<std::mutex> l(gm); got.push_back(pevent(e)); });
        for (int round = 0; round < 2; round++) {
            bool before = touched(), ok = false, thrown = false; { std::lock_guard<std::mutex> l(gm); got.clear(); }
            std::thread stopper; std::atomic<bool> started{false};
            try { ok = rd.start(); } catch (const std::system_error&) { thrown = true; if (g_mode.fn != F_THREAD || before) bad("exception", "start() threw"); }
            started = true; bool now = !before && touched();
            if (!ok && !thrown && !now && !(fired() && g_mode.fn == F_CONNECT && !wait)) bad("unprovoked-failure", "start() failed in round %d", round);
            if (!ok && fired() && g_mode.fn == F_CONNECT && wait) bad("unprovoked-failure", "start() gave up though it was to wait for the server");
            if (ok && now && (g_mode.fn == F_FOPEN || g_mode.fn == F_SOCKET || g_mode.fn == F_THREAD)) bad("error-not-reported", "start() succeeded though %s failed", g_name[g_mode.fn]);
            if (ok) { if (r.chance(80)) { rd.wait_for_complete(); now = !before && touched(); std::lock_guard<std::mutex> l(gm); bool prefix = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin());
                if (!prefix) bad("wrong-events", "%zu events read, not a prefix of the %zu sent", got.size(), want.size());
                else if (got.size() != want.size() && !now) bad("events-missing", "%zu of %zu events read in round %d", got.size(), want.size(), round);
                else if (now && got.size() != want.size()) stat("reads_cut"); } }
            else stat("starts_failed");
            rd.stop();
            if (!again) break;
        }
        (void)s;
    }
    stop = true; if (st.joinable()) st.join(); if (srv >= 0) close(srv);
    closed("after the reader was destroyed"); Hash h; h.add(seed); h.add(g_mode.fn); h.add(g_at); h.add(g_mode.kind); h.add(g_mode.err); sig(h.h);
}
// ---------------------------------------------------------------- system information
static void usage_case(uint64_t seed) {
    Rng r(seed); void* self = nullptr; HT_CPUUsageContext* c = ht_cpu_usage_context_create(self); HT_MemoryUsageContext* m = ht_memory_usage_context_create(self);
    for (unsigned i = 0; i < 4; i++) {
        bool before = touched(); if (c) { float v = ht_cpu_usage_get_percentage(c); bool now = !before && touched(); if (now && (g_mode.fn == F_FOPEN || g_first_read) && !(v < 0)) bad("error-not-reported", "CPU usage is %f though %s failed", v, g_name[g_mode.fn]); if (!touched() && !(v >= 0)) bad("unprovoked-failure", "CPU usage is %f", v); }
        before = touched(); if (m) { size_t a = 1, b = 1, d = 1; HT_ErrorCode e = ht_memory_usage_get_usage(m, &a, &b, &d); bool now = !before && touched(); if (now && (g_mode.fn == F_FOPEN || g_first_read) && e == HT_ERR_OK) bad("error-not-reported", "memory usage was returned though %s failed", g_name[g_mode.fn]); if (!now && (e != HT_ERR_OK || !a)) bad("unprovoked-failure", "memory usage failed with %d", e); }
        nap(1000);
    }
    if (c) ht_cpu_usage_context_destroy(c); if (m) ht_memory_usage_context_destroy(m);
    closed("after destruction"); Hash h; h.add(seed); h.add(g_mode.fn); h.add(g_at); h.add(g_mode.err); sig(h.h);
}
int main(int argc, char** argv) {
    Args a(argc, argv); std::string mode = a.str("mode", "file"); g_dir = a.str("dir", "/nonexistent"); g_port = (int)a.num("port", 23000); uint64_t cap = a.num("cap", 6); signal(SIGPIPE, SIG_IGN);
    ht_init(0, NULL); hv_register_all();
    auto run = [&](uint64_t seed) { if (mode == "file") file_case(seed); else if (mode == "tcp") tcp_case(seed); else if (mode == "filereader") reader_case(seed, false); else if (mode == "tcpreader") reader_case(seed, true); else usage_case(seed); };
    g_where = mode + " without faults"; arm(nullptr, 0, 1); if (mode == "tcp") file_case(a.seed * 77); run(a.seed * 77); // learns the size of the description
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        uint64_t seed = a.seed * 1000003 + cn; Rng r(seed * 3 + 1);
        g_where = mode + " case " + std::to_string(cn) + ", no fault"; arm(nullptr, 0, 1); int fds = open_fds(); run(seed); uint64_t calls[F_N]; { std::lock_guard<std::mutex> l(g_m); memcpy(calls, g_calls, sizeof calls); } stat("cases");
        for (auto& m : g_modes) {
            if (!calls[m.fn] || (mode == "tcp" && (m.fn <= F_FCLOSE))) continue; std::set<uint64_t> ks; for (uint64_t k = 1; k <= calls[m.fn] && k <= 2; k++) ks.insert(k); if (calls[m.fn] <= cap) for (uint64_t k = 1; k <= calls[m.fn]; k++) ks.insert(k); else { ks.insert(calls[m.fn]); while (ks.size() < cap) ks.insert(1 + r.below(calls[m.fn])); }
            for (uint64_t k : ks) {
                if (violation_count() >= 5) break;
                char b[200]; snprintf(b, sizeof b, "%s case %" PRIu64 ", %s no. %" PRIu64 " of %" PRIu64 " %s", mode.c_str(), cn, g_name[m.fn], k, calls[m.fn], m.kind == PARTIAL ? "does a part" : m.kind == PARTIAL_THEN_FAIL ? "does a part, then fails" : m.kind == BURST ? "fails 4 times" : m.kind == FOREVER ? "fails from then on" : "fails once");
                g_where = b; if (m.err) g_where += std::string(" (") + strerror(m.err) + ")";
                arm(&m, k, seed + k); run(seed); stat("cases"); if (fired()) { stat(std::string("faults_") + g_name[m.fn]); } else stat("fault_point_not_reached");
                if (cn == 0 && k == 1) sample("%s", g_where.c_str());
            }
        }
        if (open_fds() > fds) bad("descriptor-leak", "%d descriptors before, %d after", fds, open_fds());
        stat("workloads");
    }
    ht_deinit(); done(); return 0;
}
