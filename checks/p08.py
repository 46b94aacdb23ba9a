from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random label requests (static and dynamic, hash-colliding families, empty and binary labels, freed after the call), repeats and re-publications checked after every call; 2-6 threads on one thread-safe cache "
                "that use each identifier right after getting it, checked in delivered order; several timelines with common listeners, some destroyed and replaced, whose common stream must resolve; C and C++ tracepoint macros on the global timeline; non-trivial: fresh and repeated requests; distinct by label history or delivered order")
    ctx.assumptions.append("static labels are never unloaded; the macros keep the identifier per call site and thread, so each call site serves one timeline per thread")
    a, t = Builder(ctx, "asan"), Builder(ctx, "tsan")
    src = ["p08.cpp", "p08_c.c", "hv_events.c"]
    exa, ext = a.program("p08a", src), t.program("p08t", src)
    n, m = ctx.scale(400, 8000), ctx.scale(150, 4000)
    s = ctx.seed * 100
    ctx.parallel([dict(exe=exa, args=["mode=single", "seed=%d" % (s + i), "cases=%d" % n], timeout=240) for i in range(3)] +
                 [dict(exe=exa, args=["mode=shared", "seed=%d" % (s + 10 + i), "cases=%d" % n], timeout=240) for i in range(2)] +
                 [dict(exe=ext, args=["mode=conc", "seed=%d" % (s + 20 + i), "cases=%d" % m], san="tsan", timeout=240) for i in range(3)] +
                 [dict(exe=exa, args=["mode=conc", "seed=%d" % (s + 30 + i), "cases=%d" % m], timeout=240) for i in range(2)] +
                 [dict(exe=ext, args=["mode=global", "seed=%d" % (s + 40 + i), "cases=%d" % m], san="tsan", timeout=240) for i in range(2)])
