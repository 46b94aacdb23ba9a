from vlib.core import Builder


def run(ctx):
    ctx.rule = ("2-8 contending threads stamping from the default or an own id source, directly and through timelines, with thread starts racing for their identifiers; ids, thread ids and timestamps recorded and checked offline; "
                "non-trivial: more thread switches in id order than threads; distinct by that order")
    ctx.assumptions.append("library time is compared with CLOCK_MONOTONIC, tolerance 1 ms + 0.2 %")
    t, p = Builder(ctx, "tsan"), Builder(ctx, "plain", opt="-O2")
    ext, exp = t.program("p12t", ["p12.cpp", "hv_events.c"]), p.program("p12p", ["p12.cpp", "hv_events.c"])
    n = ctx.scale(120, 1500)
    ctx.parallel([dict(exe=ext, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], san="tsan", timeout=240) for i in range(2)] +
                 [dict(exe=exp, args=["seed=%d" % (ctx.seed * 100 + 20 + i), "cases=%d" % n, "ids=20000"], san="plain", timeout=240) for i in range(2)], workers=2)
