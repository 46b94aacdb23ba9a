from vlib.core import Builder


def run(ctx):
    ctx.rule = ("1-4 threads trace through shared or separate timelines into one TCP listener (all buffer sizes) while 1-6 (at times up to 40) loopback clients connect at random moments and read promptly, slowly, "
                "after a stall, or leave (FIN or RST) after a random number of bytes, some connecting while the listener stops; in one run descriptor 0 is free for the listener or its first client; every byte each client received is decoded by an independent decoder; "
                "non-trivial: a client received events; distinct by source order and byte counts")
    ctx.assumptions += ["loopback TCP; classes are registered before clients connect",
                        "a client that never reads exerts back-pressure by design (blocking send), so stalled clients resume within 25 ms"]
    t, a = Builder(ctx, "tsan"), Builder(ctx, "asan")
    ext, exa = t.program("p06t", ["p06.cpp", "hv_events.c"]), a.program("p06a", ["p06.cpp", "hv_events.c"])
    n = ctx.scale(280, 3000)
    ctx.parallel([dict(exe=ext, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n, "port=%d" % (21000 + 1000 * i)], san="tsan", timeout=240 if not ctx.thorough else 1500) for i in range(4)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 40), "cases=%d" % (n // 2), "port=29000", "low=1"], timeout=240 if not ctx.thorough else 1500)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 20 + i), "cases=%d" % n, "port=%d" % (26000 + 1000 * i)], timeout=240 if not ctx.thorough else 1500) for i in range(3)])
