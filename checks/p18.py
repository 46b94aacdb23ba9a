from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories over file and TCP sources: byte-exact reading under fragmentation, short and interrupted reads, read errors; readers completed, stopped at random moments (busy, idle, half an event, server absent, peer gone), "
                "stopped repeatedly and from other threads, restarted, destroyed; a deadline monitor watches every lifecycle call; non-trivial: every case; distinct by kind, sizes and progress at the stop")
    ctx.assumptions += ["loopback TCP; stop() is not called from inside an event callback nor by two threads at the same instant",
                        "a call is judged hung when it has not returned after 20 s (normal: milliseconds)"]
    libs = ["-Wl,--wrap=recv", "-Wl,--wrap=fopen"]
    t, a = Builder(ctx, "tsan"), Builder(ctx, "asan")
    parts = ("lib", "parser", "client_utils")
    ext, exa = t.program("p18t", ["p18.cpp"], parts=parts, libs=libs), a.program("p18a", ["p18.cpp"], parts=parts, libs=libs)
    n = ctx.scale(170, 6000)
    to = 120 if not ctx.thorough else 850
    ctx.parallel([dict(exe=ext, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], san="tsan", timeout=to) for i in range(4)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 40), "cases=%d" % (n // 2), "low=1"], timeout=to)] +
                 [dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + 20 + i), "cases=%d" % n], timeout=to) for i in range(4)])
