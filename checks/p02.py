from vlib.core import Builder


def run(ctx):
    ctx.rule = ("2-7 threads pushing to one thread-safe timeline while others flush and register listeners, yields/sleeps injected at random edges; "
                "non-trivial: delivery order switches threads at least as often as there are threads; distinct by observed interleaving of sources")
    t = Builder(ctx, "tsan")
    a = Builder(ctx, "asan")
    exe = t.program("p02t", ["p02.cpp", "hv_events.c"])
    exa = a.program("p02a", ["p02.cpp", "hv_events.c"])
    n = ctx.scale(150, 800)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], san="tsan", timeout=200) for i in range(6)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 50 + i), "cases=%d" % (n * 2)], san="asan", timeout=200) for i in range(3)], workers=4)
