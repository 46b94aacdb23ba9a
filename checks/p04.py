from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories of pushes, timeline flushes, listener flushes and stops on 1-3 timelines feeding one dump file (all buffer sizes around the event sizes), "
                "and 2-6 threads delivering concurrently with flushes and a stop; non-trivial: two batches (or, concurrently, more source switches in the file than threads); "
                "distinct by buffer and event-size sequence or by interleaving found in the file")
    ctx.assumptions.append("buffer size 0 is used for serialised timelines only (documented restriction)")
    a, t = Builder(ctx, "asan"), Builder(ctx, "tsan")
    exa = a.program("p04a", ["p04.cpp", "hv_events.c"])
    ext = t.program("p04t", ["p04.cpp", "hv_events.c"])
    n, m = ctx.scale(1500, 12000), ctx.scale(150, 1200)
    ctx.parallel([dict(exe=exa, args=["mode=seq", "seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=300) for i in range(4)] +
                 [dict(exe=ext, args=["mode=conc", "seed=%d" % (ctx.seed * 100 + i), "cases=%d" % m], san="tsan", timeout=300) for i in range(3)] +
                 [dict(exe=exa, args=["mode=conc", "seed=%d" % (ctx.seed * 100 + 10 + i), "cases=%d" % m], timeout=300) for i in range(2)], workers=6)
