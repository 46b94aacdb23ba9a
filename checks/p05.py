from vlib.core import Builder


def run(ctx):
    ctx.rule = ("rounds of 2-8 threads with random start lags, event counts, buffer sizes and listener registrations (before, and from any thread during, the tracing), "
                "each round on a freshly initialised library; delivery logs are kept per tracing thread without added synchronisation; non-trivial: more thread switches "
                "in the global push order than threads; distinct by that order")
    t, a = Builder(ctx, "tsan"), Builder(ctx, "asan")
    ext, exa = t.program("p05t", ["p05.cpp", "hv_events.c"]), a.program("p05a", ["p05.cpp", "hv_events.c"])
    n = ctx.scale(250, 6000)
    ctx.parallel([dict(exe=ext, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], san="tsan", timeout=240) for i in range(5)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 20 + i), "cases=%d" % n], timeout=240) for i in range(3)])
    # one process per case: what the exiting thread, static destructors and exit handlers trace
    ex = a.program("p05x", ["p05_exit.cpp", "hv_events.c"])
    ctx.parallel([dict(exe=ex, args=["seed=%d" % (ctx.seed * 100000 + i)], timeout=60) for i in range(ctx.scale(60, 2000))])
