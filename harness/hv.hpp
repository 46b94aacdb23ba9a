// Common support for the monitoring harnesses: seeded randomness, thread-safe
// reporting, distinct-case signatures, and control of schedule perturbation.
#pragma once
#include <atomic>
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

extern "C" {
// provided by perturb.cpp
void hv_perturb_set(unsigned one_in, uint64_t seed); // 0 = off
void hv_perturb_point(void);
uint64_t hv_perturb_hits(void);
unsigned hv_edges_total(void);
unsigned hv_edges_hit(void);
}

namespace hv {

struct Rng {
    uint64_t s;
    // the seed is mixed first: neighbouring seeds must not give the same sequence, shifted
    explicit Rng(uint64_t seed = 1) : s(mix(mix(seed + 0x632BE59BD9B4E019ull) ^ 0xD1B54A32D192ED03ull)) { next(); next(); }
    static uint64_t mix(uint64_t z) {
        z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull;
        z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull;
        return z ^ (z >> 33);
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // integer biased to boundaries of its width
    uint64_t interesting() {
        switch (below(8)) {
        case 0: return 0;
        case 1: return ~0ull;
        case 2: return 1ull << below(64);
        case 3: return (1ull << below(64)) - 1;
        case 4: return below(256);
        case 5: return 0x8000000000000000ull >> (8 * below(8));
        default: return next();
        }
    }
};

struct Report {
    std::mutex mtx;
    std::map<std::string, uint64_t> stats;
    std::set<uint64_t> sigs;
    unsigned violations = 0;
    unsigned samples = 0;
    static Report& get() { static Report* r = new Report; return *r; }
};

inline std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

// A violation: key is a stable class of failure; detail says what happened.
inline void violation(const char* key, const char* fmt, ...) {
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    Report& r = Report::get();
    std::lock_guard<std::mutex> l(r.mtx);
    if (r.violations++ < 40) { printf("HV-VIOLATION %s %s\n", key, esc(buf).c_str()); fflush(stdout); }
}
inline bool violated() { Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx); return r.violations > 0; }
inline unsigned violation_count() { Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx); return r.violations; }
inline void stat(const std::string& k, uint64_t n = 1) {
    Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx); r.stats[k] += n;
}
inline void stat_max(const std::string& k, uint64_t n) {
    Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx); if (r.stats[k] < n) r.stats[k] = n;
}
inline void sample(const char* fmt, ...) {
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx);
    if (r.samples++ < 5) printf("HV-SAMPLE %s\n", esc(buf).c_str());
}
inline void sig(uint64_t h) { Report& r = Report::get(); std::lock_guard<std::mutex> l(r.mtx); r.sigs.insert(h); }
inline void note(const char* fmt, ...) {
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    printf("HV-NOTE %s\n", esc(buf).c_str()); fflush(stdout);
}
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
    void add(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } }
    void add(const std::string& s) { add(s.data(), s.size()); add(s.size()); }
};
inline void done() {
    Report& r = Report::get();
    std::lock_guard<std::mutex> l(r.mtx);
    for (auto& s : r.stats) printf("HV-STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
    printf("HV-STAT edges_hit %u\nHV-STAT edges_total %u\nHV-STAT perturbations %" PRIu64 "\n", hv_edges_hit(), hv_edges_total(), hv_perturb_hits());
    if (const char* f = getenv("HV_SIGFILE")) {
        if (FILE* fp = fopen(f, "wb")) { for (uint64_t s : r.sigs) fwrite(&s, 8, 1, fp); fclose(fp); }
    }
    printf("HV-DONE violations=%u\n", r.violations);
    fflush(stdout);
}
inline std::string hex(const void* p, size_t n, size_t max = 48) {
    std::string o; const unsigned char* c = (const unsigned char*)p; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", c[i]); o += b; }
    if (n > max) o += "...";
    return o;
}
struct Args {
    uint64_t seed = 1; uint64_t cases = 100; std::map<std::string, std::string> kv;
    Args(int argc, char** argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i]; size_t e = a.find('=');
            if (e == std::string::npos) continue;
            kv[a.substr(0, e)] = a.substr(e + 1);
        }
        if (kv.count("seed")) seed = strtoull(kv["seed"].c_str(), 0, 10);
        if (kv.count("cases")) cases = strtoull(kv["cases"].c_str(), 0, 10);
    }
    std::string str(const std::string& k, const std::string& d = "") { return kv.count(k) ? kv[k] : d; }
    uint64_t num(const std::string& k, uint64_t d) { return kv.count(k) ? strtoull(kv[k].c_str(), 0, 10) : d; }
};
} // namespace hv
