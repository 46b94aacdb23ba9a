"""Drives the Python client in the real interpreter (see checks/p23.py).

usage: p23_py.py SEED MODE DIR ITERATIONS;  DIR/s<i>.htdump and DIR/s<i>.pkl hold streams and the events they must become."""
import ctypes
import gc
import glob
import os
import pickle
import random
import socket
import sys
import threading
import time
import weakref

import hawktracer.client as hc

seed, mode, d, iters = int(sys.argv[1]), sys.argv[2], sys.argv[3], int(sys.argv[4])
R = random.Random("%d-%s" % (seed, mode))
files = sorted(glob.glob(os.path.join(d, "*.htdump")))
want_of = {}
stats = {}
out_lock = threading.Lock()


def bad(key, detail):
    with out_lock:
        print("\nHV-VIOLATION python-client-%s %s" % (key, str(detail)[:1500].encode("ascii", "backslashreplace").decode().replace("\n", " ")), flush=True)


def stat(k, n=1):
    stats[k] = stats.get(k, 0) + n


def want(f):
    if f not in want_of:
        with open(f[:-7] + ".pkl", "rb") as h:
            want_of[f] = pickle.load(h)
    return want_of[f]


def compare(got, exp, f, prefix=False):
    if (len(got) > len(exp)) or (not prefix and len(got) != len(exp)):
        return bad("event-count", "%s: %d events, %d expected; got ends %r expected ends %r" % (os.path.basename(f), len(got), len(exp), got[-1:], exp[-1:]))
    for i, (g, e) in enumerate(zip(got, exp)):
        if g is None or type(g) is not tuple or len(g) != 2 or g[0] != e[0] or type(g[1]) is not dict or g[1] != e[1] or {k: type(v) for k, v in g[1].items()} != {k: type(v) for k, v in e[1].items()}:
            return bad("event", "%s: event %d is %r instead of %r" % (os.path.basename(f), i, g, e))
    stat("events_compared", len(got))


class Server:
    """Sends a stream to whoever connects; in pieces, or for ever."""
    def __init__(self, data, r, endless=False):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(8)
        self.addr = "127.0.0.1:%d" % self.s.getsockname()[1]
        self.data, self.r, self.endless, self.quit = data, random.Random(r.random()), endless, False
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while not self.quit:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            p = 0
            while p < len(self.data):
                n = self.r.choice([1, 3, 20, 500, 5000])
                c.sendall(self.data[p:p + n])
                p += n
                if self.r.random() < 0.05:
                    time.sleep(0.001)
            # the same SystemInfo-like tail again and again: endianness events are valid at any time
            while self.endless and not self.quit:
                c.sendall(bytes(21))
                time.sleep(self.r.choice([0, 0.001]))
        except OSError:
            pass
        finally:
            c.close()

    def close(self):
        self.quit = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


def drain(c, got, deadline=60):
    end = time.monotonic() + deadline
    was = False
    while True:
        e = c.poll_event()
        if e is not None:
            got.append(e)
            was = False
        elif was:
            return True
        else:
            was = c.eos()
            if not was:
                if time.monotonic() > end:
                    return False
                time.sleep(R.choice([0, 0.0005]))


def values():
    for _ in range(iters):
        f = R.choice(files)
        tcp = R.random() < 0.35
        srv = Server(open(f, "rb").read(), R) if tcp else None
        src = srv.addr if tcp else f
        c = hc.Client()
        how = R.choice(["poll", "wait", "callback", "stop", "callback", "callback-stop"])
        got = []
        if how in ("poll", "wait", "stop"):
            c.start(src) if R.random() < 0.5 else c.start(src, None)
            if how == "wait":
                c.wait_for_eos()
                if not c.eos():
                    bad("eos", "wait_for_eos() returned but eos() is False")
            if how == "stop":
                for _ in range(R.randrange(20)):
                    e = c.poll_event()
                    if e is not None:
                        got.append(e)
                c.stop()
                n = len(got)
            if not drain(c, got):
                bad("no-eos", "%s: end of the stream not reached in 60 s" % src)
            compare(got, want(f), f, prefix=how == "stop")
            for _ in range(3):
                if c.poll_event() is not None:
                    bad("event-after-end", src)
        else:
            fail = R.random() < 0.3
            stop_at = R.randrange(1, 60) if how == "callback-stop" else None
            box = {"stopped": False}
            main = threading.get_ident()

            def cb(k, e):
                if box["stopped"]:
                    bad("callback-after-stop", repr((k, e)))
                if threading.get_ident() == main:
                    bad("callback-thread", "called in the thread which called start()")
                got.append((k, e))
                if fail and len(got) % 7 == 0:
                    raise KeyError("on purpose")
            c.start(src, cb)
            if stop_at is None:
                c.wait_for_eos()
                if c.poll_event() is not None:
                    bad("poll-with-callback", "poll_event() returned an event")
            else:
                end = time.monotonic() + 20
                while len(got) < stop_at and not c.eos() and time.monotonic() < end:
                    time.sleep(0.0005)
                c.stop()
                box["stopped"] = True
            compare(list(got), want(f), f, prefix=stop_at is not None)
        if R.random() < 0.3:     # the same client again
            f2 = R.choice(files)
            got2 = []
            c.start(f2)
            if not drain(c, got2):
                bad("no-eos", f2)
            compare(got2, want(f2), f2)
            stat("restarts")
        stat("how_" + how)
        stat("cases")
        if srv:
            stat("tcp_sources")
            srv.close()


def chaos():
    """Clients used by several threads and by their own callbacks in any order; main stops everything at the end."""
    sys.setswitchinterval(R.choice([1e-6, 1e-5, 1e-3]))
    sys.unraisablehook = lambda *a: stat("callback_errors")
    f = R.choice(files)
    srvs = [Server(open(f, "rb").read(), R, endless=True), Server(open(f, "rb").read(), R)]
    dead = socket.socket()
    dead.bind(("127.0.0.1", 0))      # nobody listens: start() waits for a server
    dead_addr = "127.0.0.1:%d" % dead.getsockname()[1]
    sources = files + [s.addr for s in srvs] * max(1, len(files) // 2) + [d, os.path.join(d, "missing")]
    pool = [hc.Client() for _ in range(R.randrange(1, 4))]
    blocked = {}       # clients some thread might be waiting in
    ending = [False]

    def callback(r, holder):
        def cb(k, e):
            x = r.random()
            c = holder[0]
            if type(k) is not str or type(e) is not dict or "timestamp" not in e:
                bad("event", repr((k, e)))
            stat("chaos_callbacks")
            if c is None:
                return
            if x < 0.01:
                c.stop()
            elif x < 0.015:
                c.wait_for_eos()
            elif x < 0.03:
                c.poll_event()
                c.eos()
            elif x < 0.034:
                holder[0] = None
                del c
                for i in range(len(pool)):
                    if r.random() < 0.5:
                        pool[i] = hc.Client()
            elif x < 0.036 and not ending[0]:
                c.start(r.choice(files))
            elif x < 0.06:
                raise ValueError("on purpose")
            elif x < 0.08:
                time.sleep(0.001)
        return cb

    def worker(n):
        r = random.Random("%d-%d" % (seed, n))
        for _ in range(iters):
            if ending[0]:
                return
            i = r.randrange(len(pool))
            c = pool[i]
            op = r.choice(["start", "start", "stop", "poll", "poll", "eos", "wait", "new", "gc"])
            if op == "start":
                src = r.choice(sources) if r.random() < 0.97 else dead_addr
                blocked[n] = c
                try:
                    if r.random() < 0.5:
                        h = [c]
                        c.start(src, callback(r, h))
                    else:
                        c.start(src)
                except (TypeError, OSError):
                    stat("refused_sources")
            elif op == "stop":
                c.stop()
            elif op == "poll":
                for _ in range(r.randrange(30)):
                    e = c.poll_event()
                    if e is not None and (type(e) is not tuple or type(e[0]) is not str or type(e[1]) is not dict):
                        bad("event", repr(e))
            elif op == "eos":
                if c.eos() not in (True, False):
                    bad("eos", "not a bool")
            elif op == "wait" and r.random() < 0.3:
                blocked[n] = c
                c.wait_for_eos()
            elif op == "new":
                pool[i] = hc.Client()
            elif op == "gc":
                gc.collect()
            c = None
            blocked.pop(n, None)
            stat("chaos_ops")
            if r.random() < 0.3:
                time.sleep(r.choice([0, 0.0005]))
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(R.randrange(1, 5))]
    for t in ths:
        t.start()
    end = time.monotonic() + 3
    while any(t.is_alive() for t in ths):
        if time.monotonic() > end:
            ending[0] = True
        for c in list(blocked.values()) + list(pool):
            if R.random() < 0.3 or ending[0]:
                c.stop()
        time.sleep(R.choice([0.001, 0.01]))
    for s in srvs:
        if R.random() < 0.5:
            s.close()
    stat("cases")


def unstarted():
    c = hc.Client()
    for _ in range(iters):
        for op in R.sample(["stop", "poll", "eos", "wait", "del", "bad"], 6):
            if op == "stop":
                c.stop()
            elif op == "poll":
                if c.poll_event() is not None:
                    bad("poll", "event before start")
            elif op == "eos":
                c.eos()
            elif op == "wait":
                c.wait_for_eos()
            elif op == "del":
                c = hc.Client()
            else:
                for a in ((), (5,), (files[0], 5), (os.path.join(d, "missing"),), ("a\0b",), (d,), ("1.2.3.4.5.6",), ("256.1.1.1:1",)):
                    try:
                        c.start(*a)
                        bad("accepted", repr(a))
                    except (TypeError, OSError, ValueError):
                        stat("refused")
                try:
                    hc.Client(1)
                    bad("accepted", "Client(1)")
                except TypeError:
                    pass
            stat("cases")


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    gc.collect()
    return f()


def leak():
    f = max(files, key=lambda x: len(want(x)))
    seen = []

    def cb(k, e):
        seen.append(None)

    def cb2(k, e):
        raise exc
    exc = KeyError("x")
    sys.unraisablehook = lambda *a: None
    shared = hc.Client()

    def loop(n):
        for _ in range(n):
            c = hc.Client()
            c.start(f)
            c.wait_for_eos()
            while c.poll_event() is not None:
                pass
            c.start(f, cb)
            c.wait_for_eos()
            c.stop()
            c.start(f)          # not drained, not stopped
            shared.start(f, cb2)
            shared.wait_for_eos()
            exc.__traceback__ = None
            try:
                shared.start(d)
            except OSError:
                pass
            seen.clear()
    refs = lambda: [sys.getrefcount(x) for x in (cb, cb2, exc, hc.Client)]
    loop(20)
    grown = []
    for _ in range(4):
        r0, a0 = refs(), allocated()
        loop(30)
        a1, r1 = allocated(), refs()
        if r0 != r1:
            bad("refcount", "%s became %s" % (r0, r1))
        grown.append(a1 - a0)
    if min(grown[1:]) > 1500:
        bad("leak", "rounds of 30 runs left %s more bytes allocated (%d events each)" % (grown, len(want(f))))
    stat("leak_runs", 120)
    # an object that owns a client which calls the object's own method
    class Owner:
        def __init__(self, src):
            self.c = hc.Client()
            self.c.start(src, self.event)

        def event(self, k, e):
            self.last = e
    srv = Server(open(f, "rb").read(), R, endless=True)
    for src in (f, srv.addr):
        tasks = len(os.listdir("/proc/self/task"))
        os_ = [Owner(src) for _ in range(8)]
        ws = [weakref.ref(o) for o in os_]
        time.sleep(0.02)
        del os_
        end = time.monotonic() + 20
        while any(w() is not None for w in ws) and time.monotonic() < end:
            gc.collect()
            time.sleep(0.005)
        if any(w() is not None for w in ws):
            bad("leak", "%d of 8 unreachable owners of clients are never freed (source %s)" % (sum(w() is not None for w in ws), src))
        stat("owners_collected", sum(w() is None for w in ws))
    stat("cases", 16)
    srv.close()


def leave():
    """The program ends while clients are running."""
    global keep
    f = R.choice(files)
    srv = Server(open(f, "rb").read(), R, endless=True)
    keep = []
    for _ in range(R.randrange(1, 4)):
        c = hc.Client()
        x = R.random()
        if x < 0.7:
            c.start(R.choice([srv.addr, srv.addr, f]), lambda k, e: stat("callbacks"))
        else:
            c.start(srv.addr)
        keep.append(c)
        if R.random() < 0.3:
            cyc = [c]
            cyc.append(cyc)
        if R.random() < 0.3:
            threading.Thread(target=c.wait_for_eos, daemon=True).start()
        if R.random() < 0.2:
            keep.pop()
    time.sleep(R.choice([0, 0.005, 0.02]))
    stat("cases")


{"values": values, "chaos": chaos, "unstarted": unstarted, "leak": leak, "leave": leave}[mode]()
for k, v in list(stats.items()):
    print("HV-STAT %s %d" % (k, v))
print("HV-DONE", flush=True)
if mode == "leave" and R.random() < 0.3:
    del keep, R
