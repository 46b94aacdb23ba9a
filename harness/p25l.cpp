// P25: TCP listeners that live across shutdowns and initialisations of the library, with clients coming at any moment.
#include "hv_ev.hpp"
#include "hv_decode.hpp"
#include <hawktracer/init.h>
#include <hawktracer/timeline.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <poll.h>
#include <signal.h>
using namespace hv;
static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(long us) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&ts, 0); }
struct Lst { HT_Timeline* tl; int port; unsigned no; uint64_t pushed = 0; std::atomic<bool> gone{false}; };
struct Peer { Lst* l; std::thread th; Bytes got; bool up = false, over = false, brief; std::atomic<bool> begun{false}; long delay; uint64_t wait; };
static void peer(Peer* p) {
    nap(p->delay); int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p->l->port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a) == 0) {
        p->up = true; uint8_t b[8192]; uint64_t end = now_ms() + 40000;
        while (now_ms() < end) {
            pollfd pf = {s, POLLIN, 0}; if (poll(&pf, 1, 300) <= 0) { if (p->l->gone && p->got.empty()) { p->over = true; hv::stat("never_accepted"); break; } continue; }
            ssize_t n = recv(s, b, sizeof b, 0); if (n <= 0) { p->over = true; break; }
            p->got.insert(p->got.end(), b, b + n); p->begun = true;
            if (p->brief && p->got.size() > 3500) { p->over = true; break; }
        }
    }
    close(s); p->begun = true;
}
int main(int argc, char** argv) {
    Args a(argc, argv); int port0 = (int)a.num("port", 24000), port = port0; signal(SIGPIPE, SIG_IGN);
    for (uint64_t cn = 0; cn < a.cases && violation_count() < 4; cn++) {
        Rng r(a.seed * 7001 + cn); hv_perturb_set(r.chance(60) ? (unsigned)r.range(3, 50) : 0, a.seed * 7001 + cn);
        std::vector<std::unique_ptr<Lst>> ls; std::vector<std::unique_ptr<Peer>> ps; std::vector<Lst*> live; unsigned depth = 0, cycles = 0; Hash h; bool outlived = false;
        auto bad = [&](const char* k, const char* fmt, auto... x) { char b[600]; snprintf(b, sizeof b, fmt, x...); violation(k, "case %llu: %s", (unsigned long long)cn, b); };
        auto init = [&] { ht_init(0, nullptr); if (!depth++) { cycles++; if (r.chance(50)) HT_REGISTER_EVENT_KLASS(HvMix); HT_REGISTER_EVENT_KLASS(HvSeq); HT_REGISTER_EVENT_KLASS(HvTiny); } };
        auto push = [&](Lst* l) { HT_DECL_EVENT(HvSeq, e); ht_timeline_init_event(l->tl, HT_EVENT(&e)); e.src = l->no; e.seq = l->pushed++; e.text = "across"; ht_timeline_push_event(l->tl, HT_EVENT(&e)); };
        auto destroy = [&](size_t i) { ht_timeline_destroy(live[i]->tl); live[i]->gone = true; live.erase(live.begin() + (long)i); };
        init();
        for (unsigned op = (unsigned)r.range(8, 50); op; op--) {
            unsigned k = (unsigned)r.below(100); h.add(k);
            if (k < 14) init();
            else if (k < 36) { if (depth) { ht_deinit(); if (!--depth && !live.empty()) outlived = true; } }
            else if (k < 46) {
                if (!depth || live.size() > 2) continue;
                std::unique_ptr<Lst> l(new Lst); HT_ErrorCode e; l->no = (unsigned)ls.size(); HT_TCPListener* t = nullptr;
                l->tl = ht_timeline_create(r.below(300), HT_TRUE, HT_TRUE, nullptr, &e);
                for (int i = 0; i < 200 && !t; i++) { if (++port >= port0 + 500) port = port0; t = ht_tcp_listener_register(l->tl, port, r.range(1, 600), &e); }
                if (!t) { note("no free port"); ht_timeline_destroy(l->tl); continue; }
                l->port = port; live.push_back(l.get()); ls.push_back(std::move(l));
            }
            else if (k < 52) { if (!live.empty()) destroy(r.below(live.size())); }
            else if (k < 72) {
                if (live.empty()) continue;
                ps.emplace_back(new Peer); Peer* p = ps.back().get(); p->l = live[r.below(live.size())]; p->brief = r.chance(30); p->delay = r.chance(50) ? 0 : (long)r.below(1500);
                p->th = std::thread(peer, p);
                if (r.chance(50)) for (int i = 0; i < 3000 && !p->begun; i++) nap(100);
            }
            else if (k < 95) { if (depth && !live.empty()) for (uint64_t n = r.range(1, 30); n; n--) push(live[r.below(live.size())]); }
            else nap((long)r.below(2000));
        }
        while (depth && r.chance(80)) { ht_deinit(); depth--; }
        if (!depth && !live.empty()) outlived = true;
        bool late = depth > 0; while (!live.empty()) destroy(r.below(live.size()));
        while (depth) { ht_deinit(); depth--; }
        (void)late;
        for (auto& p : ps) {
            p->th.join(); if (!p->up) continue;
            hv::stat("clients");
            if (!p->over) { bad("connection-stays-open", "a client of listener %u did not see the end", p->l->no); continue; }
            if (p->got.empty()) continue;
            Decoder d(p->got.data(), p->got.size(), HT_MKCREFLECT_TYPES_EXT_UNSIGNED_INTEGER); d.all();
            if (!d.ok && (d.err.compare(0, 9, "truncated"))) { bad("damaged", "client of listener %u: %s at byte %zu of %zu", p->l->no, d.err.c_str(), d.pos, p->got.size()); continue; }
            // a listener being stopped may close a connection it is still greeting; the greeting is sent whole otherwise
            std::set<std::string> described; bool first = true; uint64_t next = 0; bool any = false;
            for (auto& e : d.events) {
                if (first && e.klass != 0) bad("no-header", "client of listener %u: the stream does not begin with the header", p->l->no);
                first = false;
                if (e.klass == 2) { std::string n = Decoder::find(e.vals, "event_klass_name")->s; if (!described.insert(n).second) bad("described-twice", "class %s", n.c_str()); }
                if (e.klass_name != "HvSeq") { if (any && e.klass > 3) bad("foreign-event", "%s", e.klass_name.c_str()); continue; }
                uint64_t seq = Decoder::find(e.vals, "seq")->u; if (Decoder::find(e.vals, "src")->u != p->l->no || Decoder::find(e.vals, "text")->s != "across") { bad("damaged", "foreign event at client of listener %u", p->l->no); break; }
                if (any && seq != next) { bad("events-lost", "client of listener %u: event %llu after %llu", p->l->no, (unsigned long long)seq, (unsigned long long)next - 1); break; }
                any = true; next = seq + 1; hv::stat("events_received");
            }
            if (any && !p->brief && next != p->l->pushed) bad("incomplete", "client of listener %u received events up to %llu of %llu", p->l->no, (unsigned long long)next, (unsigned long long)p->l->pushed);
            if (any || described.size() > 9) for (const char* n : {"HT_Event", "HT_StringMappingEvent", "HT_CallstackIntEvent", "HvSeq"}) if (!described.count(n)) bad("class-missing", "class %s is not described to a client of listener %u", n, p->l->no);
        }
        if (outlived) { hv::stat("listeners_outliving_a_shutdown"); sig(h.h); }
        hv::stat("cases"); hv::stat("cycles", cycles);
    }
    done(); return 0;
}
