// P15: shadow allocator, balance at shutdown, and every single allocation of every workload failed in turn.
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <arpa/inet.h>
#include <functional>
#include <unordered_map>
#include <sys/socket.h>
#include <hawktracer/alloc.h>
#include <hawktracer/cpu_usage.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/init.h>
#include <hawktracer/listeners.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/posix_mapped_tracepoint.h>
#include <hawktracer/registry.h>
#include <hawktracer/system_info.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/thread.h>
#include <hawktracer.h>
using namespace hv;
static std::mutex g_m; static std::unordered_map<void*, size_t> g_live; static uint64_t g_count, g_fail_at; static std::atomic<uint64_t> g_failed; static std::atomic<bool> g_armed, g_installed; static char g_tag;
static std::string g_where; // workload and failed index, for reports
static void bad(const char* key, const char* fmt, ...) { char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(key, "%s: %s", g_where.c_str(), b); }
static void* allocator(void* p, size_t n, void* ud) {
    if (ud != &g_tag) bad("wrong-user-data", "allocator called with other user data");
    std::lock_guard<std::mutex> l(g_m);
    size_t old = 0;
    if (p) { auto it = g_live.find(p); if (it == g_live.end()) { bad("foreign-pointer", "%s of a block the allocator does not own", n ? "resize" : "release"); return nullptr; } old = it->second; }
    if (!n) { if (p) { g_live.erase(p); memset(p, 0xDD, old); free(p); } return nullptr; }
    if (g_armed && ++g_count == g_fail_at) { g_failed++; return nullptr; }
    void* q = malloc(n); memset(q, 0xCC, n);
    if (p) { memcpy(q, p, std::min(old, n)); g_live.erase(p); memset(p, 0xDD, old); free(p); }
    g_live[q] = n; return q;
}
// the library's own references to the C allocator end here (symbols renamed in its objects)
extern "C" {
static void direct(const char* f) { if (g_installed) bad("bypasses-allocator", "the library called %s directly", f); }
void* hv_lib_malloc(size_t n) { direct("malloc"); return malloc(n); }
void* hv_lib_calloc(size_t a, size_t n) { direct("calloc"); return calloc(a, n); }
void* hv_lib_realloc(void* p, size_t n) { direct("realloc"); return realloc(p, n); }
void hv_lib_free(void* p) { if (p) direct("free"); free(p); }
char* hv_lib_strdup(const char* s) { direct("strdup"); return strdup(s); }
void* hv_lib_new(size_t n) { direct("operator new"); return operator new(n); }
void hv_lib_delete(void* p) { if (p) direct("operator delete"); operator delete(p); }
void* hv_lib_newa(size_t n) { return hv_lib_new(n); }
void hv_lib_deletes(void* p, size_t) { hv_lib_delete(p); }
void hv_lib_deletea(void* p) { hv_lib_delete(p); }
}
static size_t live() { std::lock_guard<std::mutex> l(g_m); return g_live.size(); }
static bool during(const std::function<void()>& f) { uint64_t b = g_failed; f(); return g_failed != b; }
// a constructor-like call: fails if and only if ... an allocation failed in it; a failed one leaves nothing behind
template <class T> static T* creating(const char* what, bool strict, const std::function<T*()>& f) {
    size_t before = live(); T* r = nullptr; bool hit = during([&] { r = f(); });
    if (!r && !hit) bad("create-failed", "%s failed although memory was available", what);
    if (!r && strict && live() != before) bad("leak-on-failure", "%s failed and left %zd blocks", what, (ssize_t)(live() - before));
    return r;
}
struct Log { std::vector<Bytes> batches; bool ser; Bytes all; };
static void on_events(TEventPtr e, size_t n, HT_Boolean, void* ud) { auto l = (Log*)ud; l->all.insert(l->all.end(), e, e + n); }
struct Pushed { Bytes wire; bool optional; };
// everything not marked optional must be there, in order, byte for byte
static bool subsequence(const std::vector<Pushed>& want, const Bytes& got, size_t* missing = nullptr) {
    size_t pos = 0, miss = 0;
    for (auto& w : want) { if (pos + w.wire.size() <= got.size() && !memcmp(got.data() + pos, w.wire.data(), w.wire.size())) pos += w.wire.size(); else if (w.optional) miss++; else return false; }
    if (missing) *missing = miss;
    return pos == got.size();
}
static void push(HT_Timeline* t, uint64_t seq, size_t len, std::vector<Pushed>& out) {
    AnyEvent e; e.seq(7, seq, std::string(len, (char)('a' + seq % 26))); ht_timeline_init_event(t, e.ev()); Bytes w = e.wire();
    bool hit = during([&] { ht_timeline_push_event(t, e.ev()); }); out.push_back({w, hit});
}
typedef std::function<void()> Work;
static unsigned g_destroyed;
static void count_destroy(void*) { g_destroyed++; }

static void w_timeline(size_t cap, bool ts, bool ser, const char* name) {
    HT_ErrorCode err = HT_ERR_OK; Log log; log.ser = true; g_destroyed = 0; unsigned expect = 0;
    HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", name == nullptr, [&] { return ht_timeline_create(cap, ts, ser, name, &err); });
    if (!t) { if (err == HT_ERR_OK) bad("error-not-reported", "ht_timeline_create returned nothing and no error"); return; }
    std::vector<Log> many(20); bool first = false;
    for (int i = 0; i < 20; i++) { HT_ErrorCode e = HT_ERR_OK; bool hit = during([&] { e = ht_timeline_register_listener_full(t, on_events, &many[i], count_destroy); }); if (hit != (e != HT_ERR_OK)) bad("error-not-reported", "registering listener %d: error %d, allocation failed %d", i, (int)e, hit); if (e == HT_ERR_OK) { expect++; if (i == 0) first = true; many[i].ser = true; } else many[i].ser = false; }
    std::vector<Pushed> p;
    if (ser) { for (uint64_t i = 0; i < 12; i++) push(t, i, (i % 3 == 2) ? 300 + i : 4 + i, p); }
    ht_timeline_destroy(t);
    if (name) return; // listeners live until shutdown
    if (g_destroyed != expect) bad("wrong-destroy-count", "%u destroyed, %u registered", g_destroyed, expect);
    for (int i = 0; i < 20; i++) { if (!many[i].ser) { if (!many[i].all.empty()) bad("refused-listener-called", "listener %d", i); } else if (!subsequence(p, many[i].all)) bad("wrong-delivery", "listener %d did not receive the events pushed", i); }
    (void)first;
}
struct Sub { Log log; unsigned destroyed = 0; bool in = false; };
static void sub_gone(void* ud) { ((Sub*)ud)->destroyed++; }
static void sub_events(TEventPtr e, size_t n, HT_Boolean b, void* ud) { auto s = (Sub*)ud; if (s->destroyed) bad("delivered-after-destroy", "a listener got events after its destroy callback"); on_events(e, n, b, &s->log); }
static void w_unregister() { // listener sets of several sizes emptied and filled again: every listener ends once and hears exactly what happened while it was registered
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(64, HT_TRUE, HT_TRUE, nullptr, &err); }); if (!t) return;
    std::vector<std::unique_ptr<Sub>> subs; uint64_t seq = 0;
    for (int size : {40, 17, 1, 33}) {
        size_t first = subs.size(); std::vector<Pushed> p;
        for (int i = 0; i < size; i++) { subs.emplace_back(new Sub); Sub* s = subs.back().get(); HT_ErrorCode e = HT_ERR_OK; bool h = during([&] { e = ht_timeline_register_listener_full(t, sub_events, s, sub_gone); }); if (h != (e != HT_ERR_OK)) bad("error-not-reported", "registering: error %d, allocation failed %d", (int)e, h); s->in = e == HT_ERR_OK; }
        for (int i = 0; i < 4; i++) push(t, seq++, i == 2 ? 300 : 9, p);
        ht_timeline_flush(t); ht_timeline_unregister_all_listeners(t);
        for (size_t i = first; i < subs.size(); i++) { Sub* s = subs[i].get(); if (s->destroyed != s->in) bad("wrong-destroy-count", "listener destroyed %u times when all were unregistered, registered: %d", s->destroyed, s->in); if (s->in ? !subsequence(p, s->log.all) : !s->log.all.empty()) bad("wrong-delivery", "listener %zu of a set of %d", i - first, size); }
        push(t, seq++, 5, p); ht_timeline_flush(t); ht_timeline_unregister_all_listeners(t);
    }
    ht_timeline_destroy(t);
    for (auto& s : subs) if (s->destroyed != s->in) { bad("wrong-destroy-count", "listener destroyed %u times in the end, registered: %d", s->destroyed, s->in); break; }
}
static void w_named() { // the same name from two timelines, and others that force the registry to grow
    std::vector<HT_Timeline*> ts; static Log a; a.all.clear();
    for (int i = 0; i < 14; i++) { char n[40]; snprintf(n, sizeof n, "set-%d-%s", i / 2, "with a long name"); HT_ErrorCode e = HT_ERR_OK; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", false, [&] { return ht_timeline_create(64, HT_TRUE, HT_TRUE, n, &e); }); if (!t && e == HT_ERR_OK) bad("error-not-reported", "named timeline"); if (t) ts.push_back(t); }
    std::vector<Pushed> p; if (ts.size() > 1) { HT_ErrorCode e = HT_ERR_OK; bool hit = during([&] { e = ht_timeline_register_listener(ts[0], on_events, &a); }); if (hit != (e != HT_ERR_OK)) bad("error-not-reported", "register"); push(ts[0], 1, 5, p); ht_timeline_flush(ts[0]); if (e == HT_ERR_OK && !subsequence(p, a.all)) bad("wrong-delivery", "named set"); }
    for (auto t : ts) ht_timeline_unregister_all_listeners(t), ht_timeline_destroy(t);
}
static void w_callstack() {
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(256, HT_FALSE, HT_TRUE, nullptr, &err); }); if (!t) return;
    Log log; bool ok = false; { HT_ErrorCode e = HT_ERR_OK; bool h0 = during([&] { e = ht_timeline_register_listener(t, on_events, &log); }); if (h0 != (e != HT_ERR_OK)) bad("error-not-reported", "register"); ok = e == HT_ERR_OK; }
    size_t b = live(); HT_ErrorCode e = HT_ERR_OK; bool hit = during([&] { e = ht_feature_callstack_enable(t); });
    if (hit != (e != HT_ERR_OK)) bad("error-not-reported", "ht_feature_callstack_enable: error %d, failed %d", (int)e, hit);
    if (e != HT_ERR_OK && live() != b) bad("leak-on-failure", "callstack_enable");
    if (e == HT_ERR_OK) {
        // 60 nested scopes (outgrowing the stack twice); failed starts are dropped, all others reported once, innermost first
        std::vector<std::pair<uint64_t, bool>> open; std::vector<uint64_t> want; std::vector<bool> maybe; bool below = false;
        for (uint64_t i = 0; i < 60; i++) { bool h = during([&] { ht_feature_callstack_start_int(t, 1000 + i); }); below = below || h; open.push_back({1000 + i, below}); }
        std::vector<bool> drop; while (!open.empty()) { bool h = during([&] { ht_feature_callstack_stop(t); }); want.push_back(open.back().first); drop.push_back(open.back().second || h); open.pop_back(); }
        ht_timeline_flush(t);
        if (ok) {
            std::vector<uint64_t> got; for (size_t pos = 0; pos + 40 <= log.all.size(); pos += 40) { uint64_t l; memcpy(&l, &log.all[pos + 32], 8); got.push_back(l); }
            size_t g = 0; for (size_t i = 0; i < want.size(); i++) { if (g < got.size() && got[g] == want[i]) g++; else if (!drop[i]) { bad("wrong-scope", "scope %d of %zu missing or out of order", (int)i, want.size()); break; } }
            if (g != got.size()) bad("wrong-scope", "%zu scopes reported that were not closed then", got.size() - g);
        }
        // afterwards scopes work again
        log.all.clear(); ht_feature_callstack_start_string(t, "again"); bool h2 = during([&] { ht_feature_callstack_stop(t); }); ht_timeline_flush(t); if (ok && !h2 && g_failed && log.all.size() != 38) bad("not-usable-afterwards", "%zu bytes for one more scope", log.all.size());
    }
    ht_timeline_destroy(t);
}
static void w_cached(bool ts) {
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(4096, ts, HT_TRUE, nullptr, &err); }); if (!t) return;
    Log log; HT_ErrorCode re = HT_ERR_OK; during([&] { re = ht_timeline_register_listener(t, on_events, &log); });
    size_t b = live(); HT_ErrorCode e = HT_ERR_OK; bool hit = during([&] { e = ht_feature_cached_string_enable(t, ts); });
    if (hit != (e != HT_ERR_OK)) bad("error-not-reported", "ht_feature_cached_string_enable: error %d, failed %d", (int)e, hit);
    if (e != HT_ERR_OK && live() != b) bad("leak-on-failure", "cached_string_enable: %zd blocks", (ssize_t)(live() - b));
    if (e == HT_ERR_OK) {
        static char pool[20 * 512]; std::map<std::string, uintptr_t> ids; std::map<uintptr_t, std::string> expect;
        for (int i = 0; i < 24; i++) {
            std::string lab = i % 2 ? "dynamic label " + std::to_string(i) : ""; char* st = &pool[(i % 20) * 512]; snprintf(st, 40, "static %d", i % 20);
            uintptr_t id = 0; bool h = during([&] { id = i % 2 ? ht_feature_cached_string_add_mapping_dynamic(t, lab.c_str()) : ht_feature_cached_string_add_mapping(t, st); });
            if (!h && !id) bad("label-refused", "no identifier although memory was available");
            if (h && id) stat("recovered_label");
            if (id) { std::string L = i % 2 ? lab : st; if (expect.count(id) && expect[id] != L) bad("shared-identifier", "%s", L.c_str()); expect[id] = L; }
            if (!id) { uintptr_t again = i % 2 ? ht_feature_cached_string_add_mapping_dynamic(t, lab.c_str()) : ht_feature_cached_string_add_mapping(t, st); if (!again) bad("not-usable-afterwards", "the label is refused for good"); else expect[again] = i % 2 ? lab : st; }
        }
        auto check = [&](const char* what) { std::map<uintptr_t, std::string> got; for (size_t pos = 0; pos + 28 < log.all.size();) { uint64_t id; memcpy(&id, &log.all[pos + 20], 8); std::string l = (const char*)&log.all[pos + 28]; if (got.count(id)) bad("mapping-twice", "%s", what); got[id] = l; pos += 29 + l.size(); } if (got != expect) bad("wrong-mappings", "%s: %zu mappings, %zu expected", what, got.size(), expect.size()); };
        ht_timeline_flush(t); if (re == HT_ERR_OK) check("added"); log.all.clear(); ht_feature_cached_string_push_map(t); ht_timeline_flush(t); if (re == HT_ERR_OK) check("re-published");
    }
    ht_timeline_destroy(t);
}
static Bytes slurp(const std::string& p) { Bytes b; if (FILE* f = fopen(p.c_str(), "rb")) { uint8_t t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f))) b.insert(b.end(), t, t + n); fclose(f); } return b; }
static bool ends_with_subsequence(const std::vector<Pushed>& p, const Bytes& file) { // the metadata prefix is checked elsewhere (P04)
    size_t total = 0; for (auto& x : p) total += x.wire.size();
    if (subsequence(p, Bytes(file.end() - std::min(total, file.size()), file.end()))) return true;
    for (size_t skip = 0; skip < p.size(); skip++) { std::vector<Pushed> q = p; if (!g_failed) break; size_t len = total - q[skip].wire.size(); q.erase(q.begin() + skip); for (auto& x : q) x.optional = false; if (file.size() >= len && subsequence(q, Bytes(file.end() - len, file.end()))) return true; }
    return false;
}
static void nothing(TEventPtr, size_t, HT_Boolean, void*) {}
static void fill(HT_Timeline* t) { for (int i = 0; i < 16; i++) during([&] { ht_timeline_register_listener(t, nothing, nullptr); }); } // the next listener needs more room
static void w_file(bool ser, size_t buf, bool reg) {
    std::string path = std::string(getenv("HV_TMP") ? getenv("HV_TMP") : "/tmp") + "/p15.htdump"; unlink(path.c_str());
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(200, HT_FALSE, ser, nullptr, &err); }); if (!t) return;
    if (reg) fill(t);
    HT_ErrorCode e = HT_ERR_OK; HT_FileDumpListener* l = creating<HT_FileDumpListener>("file listener", true, [&] { return reg ? ht_file_dump_listener_register(t, path.c_str(), buf, &e) : ht_file_dump_listener_create(path.c_str(), buf, &e); });
    if (!l && e == HT_ERR_OK) bad("error-not-reported", "file listener");
    bool added = reg && l; if (l && !reg) { HT_ErrorCode r = HT_ERR_OK; bool h = during([&] { r = ht_timeline_register_listener_full(t, ht_file_dump_listener_callback, l, (HT_DestroyCallback)ht_file_dump_listener_destroy); }); if (h != (r != HT_ERR_OK)) bad("error-not-reported", "register_listener_full"); if (r != HT_ERR_OK) ht_file_dump_listener_destroy(l); else added = true; }
    std::vector<Pushed> p; static std::string texts[12]; std::vector<std::unique_ptr<AnyEvent>> keep;
    for (uint64_t i = 0; i < 10; i++) { keep.emplace_back(new AnyEvent); keep.back()->seq(3, i, std::string(i == 4 ? 900 : 8 + i, 'q')); ht_timeline_init_event(t, keep.back()->ev()); Bytes w = keep.back()->wire(); bool h = during([&] { ht_timeline_push_event(t, keep.back()->ev()); }); p.push_back({w, h}); }
    ht_timeline_flush(t); if (added && g_count % 2) ht_file_dump_listener_stop(l);
    ht_timeline_destroy(t);
    if (added) { Bytes f = slurp(path); if (!ends_with_subsequence(p, f)) bad("wrong-file", "the file (%zu bytes) does not end with the events pushed", f.size()); }
    unlink(path.c_str());
}
static int client_fd(int port) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); timeval tv{5, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s; }
static int free_port() { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); bind(s, (sockaddr*)&a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); int p = ntohs(a.sin_port); close(s); return p; }
static std::atomic<int> g_conn; static void on_conn(int, void*) { g_conn++; }
static void w_tcp(int clients) {
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(200, HT_FALSE, HT_TRUE, nullptr, &err); }); if (!t) return;
    if (clients != 10) fill(t);
    HT_ErrorCode e = HT_ERR_OK; int port = free_port(); HT_TCPListener* l = nullptr; size_t b = live(); bool hit = during([&] { for (int i = 0; i < 8 && !l; i++) { e = HT_ERR_OK; l = ht_tcp_listener_register(t, port, 128, &e); if (!l && e != HT_ERR_CANT_START_TCP_SERVER) break; if (!l && g_failed) break; if (!l) port = free_port(); } });
    if (!l) { if (e == HT_ERR_OK) bad("error-not-reported", "tcp listener"); if (!hit && !g_failed) bad("create-failed", "tcp listener, error %d", (int)e); if (live() != b) bad("leak-on-failure", "tcp listener: %zd blocks", (ssize_t)(live() - b)); ht_timeline_destroy(t); return; }
    g_conn = 0; ht_tcp_listener_set_on_client_connected_callback(l, on_conn, nullptr); std::vector<int> fds;
    for (int i = 0; i < clients; i++) { int c0 = g_conn, fd = client_fd(port); if (fd >= 0) { fds.push_back(fd); for (int k = 0; k < 5000 && g_conn == c0; k++) usleep(1000); } }
    std::vector<Pushed> p; for (uint64_t i = 0; i < 6; i++) push(t, i, 20 + i * 30, p);
    ht_timeline_flush(t); ht_timeline_destroy(t);
    for (int fd : fds) { Bytes got; uint8_t tmp[4096]; ssize_t n; while ((n = recv(fd, tmp, sizeof tmp, 0)) > 0) got.insert(got.end(), tmp, tmp + n); close(fd); if (n < 0) bad("client-not-closed", "the connection is still open"); if (got.empty()) bad("client-got-nothing", "-"); }
}
static HT_Boolean task(void* ud) { ++*(int*)ud; return HT_TRUE; }
static void w_scheduler() {
    HT_ErrorCode e = HT_ERR_OK; HT_TaskScheduler* s = creating<HT_TaskScheduler>("scheduler", true, [&] { return ht_task_scheduler_create(&e); });
    if (!s) { if (e == HT_ERR_OK) bad("error-not-reported", "scheduler"); return; }
    static int runs[40]; memset(runs, 0, sizeof runs); std::vector<std::pair<HT_TaskId, int>> ids; size_t failed = 0;
    for (int i = 0; i < 40; i++) { HT_TaskId id = -1; size_t b = live(); bool h = during([&] { id = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 0, task, &runs[i]); }); if (h != (id < 0)) bad("error-not-reported", "schedule: id %d, failed %d", id, h); if (id < 0) { failed++; if (live() != b) bad("leak-on-failure", "schedule"); } else ids.push_back({id, i}); }
    ht_task_scheduler_tick(s); for (auto& x : ids) if (runs[x.second] != 1) { bad("task-lost", "task %d ran %d times", x.first, runs[x.second]); break; }
    for (size_t i = 0; i + 3 < ids.size(); i++) if (!ht_task_scheduler_remove_task(s, ids[i].first)) { bad("task-lost", "cannot remove task %d", ids[i].first); break; }
    memset(runs, 0, sizeof runs); ht_task_scheduler_tick(s); for (size_t i = 0; i < ids.size(); i++) if (runs[ids[i].second] != (i + 3 < ids.size() ? 0 : 1)) { bad("task-lost", "after removals"); break; }
    ht_task_scheduler_destroy(s);
}
static void w_klasses() { // 30 run-time classes, one with a name longer than the description buffer
    static std::vector<std::unique_ptr<HT_EventKlass>> ks; static std::vector<std::unique_ptr<MKCREFLECT_TypeInfo>> tis; static std::vector<std::string> names;
    if (ks.empty()) { names.reserve(30); for (int i = 0; i < 30; i++) { ks.emplace_back(new HT_EventKlass(*HT_EVENT_KLASS_GET(HvTiny))); tis.emplace_back(new MKCREFLECT_TypeInfo(*HT_EVENT_KLASS_GET(HvTiny)->type_info)); names.push_back("HvRun" + std::to_string(i) + (i == 11 ? std::string(5000, 'N') : "")); tis.back()->name = (char*)names.back().c_str(); ks.back()->type_info = tis.back().get(); } }
    for (auto& k : ks) k->klass_id = HT_INVALID_KLASS_ID;
    std::set<uint32_t> ids; std::vector<HT_EventKlass*> ok;
    for (auto& k : ks) { HT_EventKlassId id = 0; bool h = during([&] { id = ht_registry_register_event_klass(k.get()); }); if (h != (id == HT_INVALID_KLASS_ID)) bad("error-not-reported", "class registration: id %u, failed %d", id, h);
        if (id == HT_INVALID_KLASS_ID) { id = ht_registry_register_event_klass(k.get()); if (id == HT_INVALID_KLASS_ID) bad("not-usable-afterwards", "class is refused for good"); }
        if (!ids.insert(id).second) bad("duplicate-class-id", "%u", id); }
    Log l; bool h = during([&] { ht_registry_push_registry_klasses_to_listener(on_events, &l, HT_TRUE); });
    Decoder d(l.all.data(), l.all.size(), HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); d.all(); if (!d.ok && !h) bad("bad-description", "%s", d.err.c_str());
    (void)ok;
}
static void traced_once(int i) { HT_TP_G_FUNCTION(); { HT_TP_GLOBAL_SCOPED_INT(77 + i); } { HT_TP_GLOBAL_SCOPED_STRING("scope"); } char dyn[40]; snprintf(dyn, sizeof dyn, "dyn%d", i); { HT_TP_G_DYN_STRACEPOINT(dyn); } }
static void w_global(int threads) {
    static Log l; l.all.clear(); static std::atomic<unsigned> nulls; nulls = 0; bool registered = false;
    std::thread owner([&] {
        HT_Timeline* t = ht_global_timeline_get(); if (!t) { nulls++; if (!g_failed) bad("create-failed", "global timeline"); return; }
        HT_ErrorCode e = HT_ERR_OK; bool h = during([&] { e = ht_timeline_register_listener(t, on_events, &l); }); if (h != (e != HT_ERR_OK)) bad("error-not-reported", "register on global timeline"); registered = e == HT_ERR_OK;
    }); owner.join();
    for (int i = 0; i < threads; i++) { std::thread th([&, i] { HT_Timeline* t = ht_global_timeline_get(); if (!t) { nulls++; if (!g_failed) bad("create-failed", "global timeline"); } traced_once(i); if (t != ht_global_timeline_get()) bad("timeline-changed", "the thread's global timeline changed"); }); th.join(); }
    if (nulls > 1) bad("not-usable-afterwards", "%u threads without a global timeline after one failed allocation", (unsigned)nulls);
    if (registered && threads > 1 && l.all.empty()) bad("wrong-delivery", "no global event was delivered");
    std::thread cleaner([&] { if (HT_Timeline* t = ht_global_timeline_get()) ht_timeline_unregister_all_listeners(t); }); cleaner.join();
}
static void w_misc() {
    HT_EventIdProvider* p = creating<HT_EventIdProvider>("id provider", true, [&] { return ht_event_id_provider_create(); }); if (p) { if (ht_event_id_provider_next(p) == ht_event_id_provider_next(p)) bad("same-id", "-"); ht_event_id_provider_destroy(p); }
    HT_CPUUsageContext* c = creating<HT_CPUUsageContext>("cpu usage", true, [&] { return ht_cpu_usage_context_create(nullptr); }); if (c) { ht_cpu_usage_get_percentage(c); ht_cpu_usage_context_destroy(c); }
    HT_MemoryUsageContext* m = creating<HT_MemoryUsageContext>("memory usage", true, [&] { return ht_memory_usage_context_create(nullptr); }); if (m) { size_t v; if (ht_memory_usage_get_usage(m, &v, nullptr, nullptr) != HT_ERR_OK) bad("memory-usage", "-"); ht_memory_usage_context_destroy(m); }
}
static void w_mapped() {
    HT_ErrorCode err; HT_Timeline* t = creating<HT_Timeline>("ht_timeline_create", true, [&] { return ht_timeline_create(512, HT_FALSE, HT_TRUE, nullptr, &err); }); if (!t) return;
    if (ht_feature_cached_string_enable(t, HT_FALSE) == HT_ERR_OK && ht_feature_callstack_enable(t) == HT_ERR_OK) {
        for (int i = 0; i < 3; i++) { ht_pthread_mapped_tracepoint_enter(t, "label"); ht_pthread_mapped_tracepoint_add_mapping(); ht_pthread_mapped_tracepoint_leave(); { HT_TRACE(t, "x"); } { HT_TRACE_OPT_DYNAMIC(t, "y"); } { HT_TRACE_FUNCTION(t); } }
    }
    ht_timeline_destroy(t);
}
static void w_metadata() { Log l; bool h = during([&] { ht_timeline_listener_push_metadata(on_events, &l, HT_TRUE); }); (void)h; Decoder d(l.all.data(), l.all.size(), HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); d.all(); if (!d.ok && !h) bad("bad-description", "%s", d.err.c_str()); }

struct Witness { HT_Timeline* t; Log log; std::vector<Pushed> p; };
static uint64_t run_once(const Work& w, uint64_t fail_at) {
    g_installed = false; ht_allocator_set(allocator, &g_tag); g_installed = true; g_armed = false; g_count = 0; g_failed = 0; g_fail_at = fail_at;
    ht_init(0, nullptr); hv_register_all();
    HT_ErrorCode e; Witness wi; wi.t = ht_timeline_create(300, HT_TRUE, HT_TRUE, nullptr, &e); ht_timeline_register_listener(wi.t, on_events, &wi.log); ht_feature_callstack_enable(wi.t); push(wi.t, 1, 10, wi.p);
    g_armed = true; w(); g_armed = false; uint64_t n = g_count;
    // others stay usable, later calls work
    push(wi.t, 2, 10, wi.p); ht_timeline_flush(wi.t); if (!subsequence(wi.p, wi.log.all)) bad("other-object-damaged", "another timeline lost events");
    { Log l; std::vector<Pushed> p; HT_Timeline* t = ht_timeline_create(100, HT_FALSE, HT_TRUE, "set-0-with a long name", &e); if (!t) bad("not-usable-afterwards", "timeline creation, error %d", (int)e); else { if (ht_timeline_register_listener(t, on_events, &l) != HT_ERR_OK || ht_feature_callstack_enable(t) != HT_ERR_OK) bad("not-usable-afterwards", "listener or feature"); push(t, 5, 200, p); ht_timeline_destroy(t); if (!subsequence(p, l.all)) bad("not-usable-afterwards", "a new timeline does not deliver"); } }
    ht_timeline_destroy(wi.t); ht_deinit();
    size_t left = live(); if (left) { std::string s; std::lock_guard<std::mutex> lk(g_m); for (auto& x : g_live) { if (s.size() < 100) s += " " + std::to_string(x.second); free(x.first); } g_live.clear(); bad("leak", "%zu blocks left after shutdown, sizes%s", left, s.c_str()); }
    g_installed = false; ht_allocator_set(nullptr, nullptr); return n;
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t max_k = a.num("max", 300), part = a.num("part", 0), parts = a.num("parts", 1); Rng r(a.seed);
    ht_tcp_listener_set_on_client_connected_callback; // linked
    struct Named { const char* name; Work w; };
    std::vector<Named> ws = {
        {"timeline/64/plain", [] { w_timeline(64, false, true, nullptr); }}, {"timeline/1/thread-safe", [] { w_timeline(1, true, true, nullptr); }}, {"timeline/2000/unserialised", [] { w_timeline(2000, true, false, nullptr); }}, {"timeline/named", [] { w_timeline(64, true, true, "some set"); }},
        {"named sets", w_named}, {"listener sets emptied", w_unregister}, {"call stack", w_callstack}, {"cached strings", [] { w_cached(false); }}, {"cached strings/thread-safe", [] { w_cached(true); }},
        {"file/serialised", [] { w_file(true, 64, true); }}, {"file/unserialised", [] { w_file(false, 100, false); }}, {"file/direct", [] { w_file(true, 0, false); }}, {"file/unserialised/registered", [] { w_file(false, 1000, true); }},
        {"tcp/2", [] { w_tcp(2); }}, {"tcp/10", [] { w_tcp(10); }}, {"scheduler", w_scheduler}, {"classes", w_klasses}, {"global/3", [] { w_global(3); }}, {"misc", w_misc}, {"tracepoints", w_mapped}, {"metadata", w_metadata} };
    std::string only = a.str("only");
    for (size_t i = 0; i < ws.size() && violation_count() < 5; i++) {
        if (i % parts != part || (!only.empty() && only != ws[i].name)) continue;
        g_where = std::string(ws[i].name) + ", no failure"; uint64_t n = run_once(ws[i].w, 0); stat("workloads"); stat("allocations", n);
        std::set<uint64_t> ks; if (n + 2 <= max_k) for (uint64_t k = 1; k <= n + 2; k++) ks.insert(k); else { for (uint64_t k = 1; k <= 40; k++) { ks.insert(k); ks.insert(n + 1 - k); } while (ks.size() < max_k) ks.insert(r.range(1, n)); }
        uint64_t hits = 0;
        for (uint64_t k : ks) { if (violation_count() >= 5) break; g_where = std::string(ws[i].name) + ", allocation " + std::to_string(k) + " failed"; run_once(ws[i].w, k); stat("cases"); if (g_failed) { hits++; Hash h; h.add(i); h.add(k); sig(h.h); } }
        stat("injected_failures", hits); sample("%s: %" PRIu64 " allocations, %" PRIu64 " of them failed in turn", ws[i].name, n, hits);
    }
    done(); return 0;
}
