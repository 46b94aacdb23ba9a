// P21: CPU and memory usage against the operating system's figures - real processes, and made-up /proc contents.
#include "hv.hpp"
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/monotonic_clock.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <errno.h>
#include <math.h>
#include <time.h>
using namespace hv;
static std::atomic<uint64_t> g_virtual{0}; static uint64_t real_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec; }
static bool g_real;
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_real ? real_ns() : g_virtual.load(); }
// ---- made-up /proc files (of processes that cannot exist)
struct Fake { std::string content; bool absent; size_t chunk; }; static std::map<std::string, Fake> g_fake; static unsigned g_served; static int g_open;
struct Ck { std::string c; size_t p, chunk; };
static ssize_t ck_read(void* v, char* b, size_t n) { Ck* k = (Ck*)v; size_t m = std::min({n, k->c.size() - k->p, k->chunk}); memcpy(b, k->c.data() + k->p, m); k->p += m; return (ssize_t)m; }
static int ck_close(void* v) { delete (Ck*)v; g_open--; return 0; }
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    auto i = g_fake.find(p); if (i == g_fake.end()) return __real_fopen(p, m);
    g_served++; if (i->second.absent) { errno = ENOENT; return nullptr; }
    g_open++; cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close}; return fopencookie(new Ck{i->second.content, 0, i->second.chunk}, "r", io);
}
static std::string slurp(const std::string& p) { FILE* f = __real_fopen(p.c_str(), "r"); if (!f) return ""; char b[4096]; size_t n = fread(b, 1, sizeof b, f); fclose(f); return std::string(b, n); }
static bool os_ticks(int pid, uint64_t& out) { std::string s = slurp("/proc/" + std::to_string(pid) + "/stat"); size_t e = s.rfind(')'); if (e == std::string::npos) return false; unsigned long u, k; if (sscanf(s.c_str() + e + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k) != 2) return false; out = u + k; return true; }
static bool os_mem(int pid, uint64_t v[3]) { std::string s = slurp("/proc/" + std::to_string(pid) + "/statm"); return sscanf(s.c_str(), "%" SCNu64 " %" SCNu64 " %" SCNu64, &v[0], &v[1], &v[2]) == 3; }
static std::string random_name(Rng& r) { static const std::vector<std::string> odd = {"a) R 1 2 3", ") S 0 0", "))))", "((", "a b c", ") R 9 9 9 9 9", "x\ny", "%d %s", "", "kworker/0:1-ev", "tab\tname", "1 (2) 3", ")"}; if (r.chance(50)) return r.pick(odd); std::string s; size_t n = r.range(1, 15); for (size_t i = 0; i < n; i++) s += (char)r.range(33, 126); return s; }
static void fake_cpu(Rng& r, Hash& h) {
    int pid = 5000000 + (int)r.below(100000000); std::string path = "/proc/" + std::to_string(pid) + "/stat", name = random_name(r); g_real = false;
    long hz = sysconf(_SC_CLK_TCK); uint64_t now = r.chance(20) ? r.below(1000) + 1 : r.next() >> r.range(2, 20); g_virtual = now;
    uint64_t ut = r.chance(30) ? 0 : r.next() >> r.range(12, 50), st = r.chance(30) ? 0 : r.next() >> r.range(12, 50), last_t = 0, last_ts = 0; bool known = false;
    HT_CPUUsageContext* c = nullptr; unsigned n = (unsigned)r.range(2, 8);
    for (unsigned i = 0; i < n; i++) {
        now += r.chance(20) ? r.range(1, 1000) : r.chance(20) ? r.range(1000000000, 100000000000ull) : r.range(1000000, 1000000000); g_virtual = now;
        ut += r.chance(30) ? 0 : r.below(r.chance(10) ? 10000000 : 500); st += r.chance(30) ? 0 : r.below(300);
        char tail[900]; snprintf(tail, sizeof tail, " %c %d %d %d %d %d %u %lu %lu %lu %lu %lu %lu %ld %ld 20 0 %u 0 %lu %lu %lu 18446744073709551615 %lu %lu %lu 0 0 0 0 4096 0 0 0 0 17 %u 0 0 0 0 0 0 0 0 0 0 0 0 0\n",
                 "RSDZTtXI"[r.below(8)], (int)r.below(4000000), (int)r.below(4000000), (int)r.below(4000000), (int)r.below(70000), r.chance(50) ? -1 : (int)r.below(4000000), (unsigned)r.next(), (unsigned long)(r.next() >> r.below(60)), (unsigned long)(r.next() >> r.below(60)), (unsigned long)(r.next() >> r.below(60)), (unsigned long)(r.next() >> r.below(60)),
                 (unsigned long)ut, (unsigned long)st, (long)(r.next() >> 40), (long)(r.next() >> 40), (unsigned)r.below(5000), (unsigned long)(r.next() >> 20), (unsigned long)(r.next() >> 20), (unsigned long)r.below(1000000), (unsigned long)(r.next() >> 17), (unsigned long)(r.next() >> 17), (unsigned long)(r.next() >> 17), (unsigned)r.below(256));
        std::string head = std::to_string(pid) + " (" + name + ")", s = head + tail; enum { GOOD, ABSENT, UNREADABLE, EITHER } k = GOOD; Fake f{s, false, r.chance(70) ? (size_t)4096 : r.range(1, 200)};
        if (r.chance(30)) { // gone, cut or nonsense
            switch (r.below(4)) {
            case 0: f.absent = true; k = ABSENT; break;
            case 1: { size_t cut = r.below(s.size()); f.content = s.substr(0, cut); size_t p = s.size() - strlen(tail), sp = 0, e0 = 0, e1 = 0; for (size_t j = p; j < s.size(); j++) if (s[j] == ' ') { sp++; if (sp == 13) e0 = j + 1; if (sp == 14) e1 = j + 1; } k = cut <= e0 ? UNREADABLE : cut >= e1 && cut >= 90 ? GOOD : EITHER; break; }
            case 2: f.content.clear(); for (size_t j = r.below(1200); j; j--) f.content += (char)r.range(32, 126); k = EITHER; if (f.content.find(')') == std::string::npos) k = UNREADABLE; break;
            default: f.content = std::string(r.below(2000), r.chance(50) ? ')' : '('); k = UNREADABLE; break; }
        }
        if (i == 0 && k == EITHER) { k = GOOD; f = Fake{s, false, 4096}; }
        g_fake[path] = f; unsigned served = g_served; float v = 0;
        bool first = !c; if (first) { c = ht_cpu_usage_context_create(&pid); if (!c) { violation("create-failed", "no context"); return; } } else v = ht_cpu_usage_get_percentage(c);
        if (g_served == served) { stat("fakes_not_read"); break; }
        if (g_open) { violation("file-left-open", "%d files left open", g_open); break; }
        h.add((uint64_t)k); h.add(ut); stat(k == GOOD ? "fake_readings" : "fake_failures");
        if (k == EITHER) break; // what the text means is anybody's guess, and so is the next difference
        if (k != GOOD) { if (!first && !(v < 0)) violation("failure-not-reported", "reading %u of '%s' gave %f", i, f.content.substr(0, 120).c_str(), v); continue; }
        uint64_t total = ut + st;
        if (known && !first) {
            double want = (double)(total - last_t) * 100.0 * 1e9 / ((double)hz * (double)(now - last_ts));
            if (!(fabs(v - want) <= 1e-4 * want + 1e-6)) violation("wrong-cpu-usage", "name '%s': %" PRIu64 " ticks in %" PRIu64 " ns is %f%%, not %f%%", name.c_str(), total - last_t, now - last_ts, want, v);
            stat("percentages_checked"); if (v > 0) h.add(1);
        }
        known = true; last_t = total; last_ts = now;
    }
    if (c) ht_cpu_usage_context_destroy(c); g_fake.clear();
}
static void judge_mem(const char* what, HT_MemoryUsageContext* c, Rng& r, const uint64_t* want, int expect_ok /*1 ok, 0 failure, -1 either*/) {
    size_t v = 0x1234, s = 0x1234, m = 0x1234; unsigned mask = (unsigned)r.below(8); HT_ErrorCode e = ht_memory_usage_get_usage(c, mask & 1 ? &v : nullptr, mask & 2 ? &s : nullptr, mask & 4 ? &m : nullptr); size_t pg = (size_t)sysconf(_SC_PAGESIZE);
    if (!mask) { if (e != HT_ERR_OK) violation("optional-outputs", "%s: asking for nothing gave error %d", what, e); return; }
    if (expect_ok == 0 && e == HT_ERR_OK) { violation("failure-not-reported", "%s: reported success (%zu %zu %zu)", what, v, s, m); return; }
    if (expect_ok == 1 && e != HT_ERR_OK) { violation("reading-failed", "%s: error %d", what, e); return; }
    if (e != HT_ERR_OK || !want || expect_ok < 0) return;
    if (((mask & 1) && v != want[0] * pg) || ((mask & 4) && m != want[1] * pg) || ((mask & 2) && s != want[2] * pg)) violation("wrong-memory-usage", "%s (outputs %u): virtual %zu shared %zu resident %zu, not %" PRIu64 " %" PRIu64 " %" PRIu64, what, mask, v, s, m, want[0] * pg, want[2] * pg, want[1] * pg);
    stat("memory_readings_checked");
}
static void fake_mem(Rng& r, Hash& h) {
    int pid = 5000000 + (int)r.below(100000000); std::string path = "/proc/" + std::to_string(pid) + "/statm"; HT_MemoryUsageContext* c = ht_memory_usage_context_create(&pid);
    for (unsigned i = 0; i < 4; i++) {
        uint64_t w[3]; for (auto& x : w) x = r.chance(20) ? r.below(100) : r.next() >> r.range(12, 60); char b[300]; int n = snprintf(b, sizeof b, "%" PRIu64 " %" PRIu64 " %" PRIu64, w[0], w[1], w[2]);
        std::string s = b; s += " " + std::to_string(r.below(100000)) + " 0 " + std::to_string(r.next() >> r.range(12, 60)) + " 0\n"; Fake f{s, false, r.chance(70) ? (size_t)4096 : r.range(1, 30)}; int ok = 1;
        if (r.chance(35)) { switch (r.below(3)) { case 0: f.absent = true; ok = 0; break; case 1: { size_t cut = r.below(s.size()); f.content = s.substr(0, cut); size_t third = s.find(' ', s.find(' ') + 1) + 1; ok = cut <= third ? 0 : (int)cut > n ? 1 : -1; break; } default: f.content = std::string(r.below(300), (char)r.range(33, 126)); ok = f.content.find_first_of("0123456789") == std::string::npos ? 0 : -1; } }
        g_fake[path] = f; unsigned served = g_served; judge_mem(("made-up statm '" + f.content.substr(0, 60) + "'").c_str(), c, r, w, ok); (void)served; if (g_open) violation("file-left-open", "%d files left open", g_open);
        if (g_served == served) { /* nothing asked, or read by other means: the process does not exist */ } h.add(w[0]); h.add((uint64_t)ok);
    }
    ht_memory_usage_context_destroy(c); g_fake.clear();
    if (ht_memory_usage_get_usage(nullptr, nullptr, nullptr, nullptr) == HT_ERR_OK) violation("failure-not-reported", "no context, yet success");
}
static void spin(uint64_t ms) { uint64_t e = real_ns() + ms * 1000000; volatile unsigned x = 0; while (real_ns() < e) for (int i = 0; i < 1000; i++) x += (unsigned)i; }
// a real process: bracketed by the operating system's own figures taken just before and just after
static void real_proc(Rng& r, Hash& h) {
    g_real = true; bool self = r.chance(30); int pid = getpid(); std::string name = random_name(r); size_t mb = r.below(12);
    if (!self) {
        int pp[2]; if (pipe(pp)) return; pid = fork();
        if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_NAME, name.c_str()); char* m = (char*)mmap(0, (mb + 1) << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(m, 1, mb << 19); if (write(pp[1], "x", 1) != 1) _exit(1); for (volatile unsigned long x = 0;; x++) {} }
        char c; ssize_t k; do k = read(pp[0], &c, 1); while (k < 0 && errno == EINTR); close(pp[0]); close(pp[1]);
    }
    long hz = sysconf(_SC_CLK_TCK); int p2 = pid; HT_CPUUsageContext* c = nullptr; uint64_t a0 = 0, a1 = 0, b0 = 0, b1 = 0, ta = 0, tb = 0; uint64_t wa, wb;
    for (unsigned i = 0; i < 3; i++) {
        bool ok = os_ticks(pid, b0); tb = real_ns(); float v = 0; if (!c) { c = ht_cpu_usage_context_create(self && r.chance(50) ? nullptr : &p2); p2 = -1; } else v = ht_cpu_usage_get_percentage(c); uint64_t te = real_ns(); ok = os_ticks(pid, b1) && ok;
        if (!ok) { violation("harness", "cannot read /proc/%d/stat", pid); break; }
        if (i) {
            uint64_t lo = b0 > a1 ? b0 - a1 : 0, hi = b1 - a0; double emin = (double)(tb - wb), emax = (double)(te - wa);
            double vlo = (double)lo * 100e9 / ((double)hz * emax), vhi = (double)hi * 100e9 / ((double)hz * emin);
            if (!(v >= vlo * 0.999 - 1e-3 && v <= vhi * 1.001 + 1e-3)) violation("wrong-cpu-usage", "%s '%s': %f%%, the operating system says %f..%f%%", self ? "this process" : "process", name.c_str(), v, vlo, vhi);
            stat("real_percentages"); if (v > 0) stat("real_nonzero"); h.add(b1 - a0);
        }
        a0 = b0; a1 = b1; wa = tb; wb = te; (void)ta;
        if (self) spin(r.range(5, 40)); else { struct timespec ts = {0, (long)r.range(5, 40) * 1000000}; nanosleep(&ts, 0); }
    }
    HT_MemoryUsageContext* m = ht_memory_usage_context_create(self ? nullptr : &pid);
    if (!self) { kill(pid, SIGSTOP); int st; waitpid(pid, &st, WUNTRACED); }
    for (unsigned i = 0; i < 4; i++) {
        uint64_t x[3], y[3]; if (!os_mem(pid, x)) break;
        size_t v = 0, s = 0, q = 0; HT_ErrorCode e = ht_memory_usage_get_usage(m, &v, &s, &q); if (!os_mem(pid, y)) break; size_t pg = (size_t)sysconf(_SC_PAGESIZE);
        if (e != HT_ERR_OK) violation("reading-failed", "memory of a live process: error %d", e);
        size_t g[3] = {v, q, s}; static const char* nm[] = {"virtual", "resident", "shared"};
        for (int k = 0; k < 3; k++) { if (x[k] == y[k] && !self) { if (g[k] != x[k] * pg) violation("wrong-memory-usage", "%s of another process: %zu, not %" PRIu64, nm[k], g[k], x[k] * pg); stat("real_memory_exact"); } else { uint64_t lo = std::min(x[k], y[k]), hi = std::max(x[k], y[k]); lo = lo > 1024 ? lo - 1024 : 0; hi += 1024; if (g[k] < lo * pg || g[k] > hi * pg) violation("wrong-memory-usage", "%s: %zu, the operating system says %" PRIu64 "..%" PRIu64, nm[k], g[k], lo * pg, hi * pg); } }
        h.add(x[0]);
    }
    if (!self) {
        kill(pid, SIGCONT); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
        if (!slurp("/proc/" + std::to_string(pid) + "/stat").size()) { float v = ht_cpu_usage_get_percentage(c); size_t x = 7; HT_ErrorCode e = ht_memory_usage_get_usage(m, &x, nullptr, nullptr); if (!slurp("/proc/" + std::to_string(pid) + "/stat").size()) { if (!(v < 0)) violation("failure-not-reported", "CPU usage %f of a process that is gone", v); if (e == HT_ERR_OK) violation("failure-not-reported", "memory usage %zu of a process that is gone", x); stat("gone_processes"); } }
    }
    ht_cpu_usage_context_destroy(c); ht_memory_usage_context_destroy(m);
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 5; cn++) {
        Rng r(a.seed * 92821 + cn); Hash h; unsigned k = cn % 40 == 0 ? 2 : (unsigned)(cn & 1); h.add(k);
        if (k == 0) fake_cpu(r, h); else if (k == 1) fake_mem(r, h); else real_proc(r, h);
        sig(h.h); stat("cases");
    }
    done(); return 0;
}
