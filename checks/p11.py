from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random sets of up to 400 dynamically created classes (any number and kind of fields, long names, inheritance) registered repeatedly, and 2-5 threads registering overlapping sets while others read descriptions; "
                "classes declared with the macros registered by threads that trace with them at once; every description stream (serialised and raw) decoded and compared with the model; non-trivial: two classes; distinct by classes and observed identifiers")
    ctx.assumptions += ["a class has at most 255 fields (format limit)"]
    a, t = Builder(ctx, "asan"), Builder(ctx, "tsan")
    exa, ext = a.program("p11a", ["p11.cpp", "hv_events.c"]), t.program("p11t", ["p11.cpp", "hv_events.c"])
    n, m = ctx.scale(250, 5000), ctx.scale(60, 1500)
    s = ctx.seed * 100
    ctx.parallel([dict(exe=exa, args=["mode=seq", "seed=%d" % (s + i), "cases=%d" % n], timeout=240) for i in range(4)] +
                 [dict(exe=ext, args=["mode=conc", "seed=%d" % (s + 20 + i), "cases=%d" % m], san="tsan", timeout=240) for i in range(3)] +
                 [dict(exe=exa, args=["mode=conc", "seed=%d" % (s + 30 + i), "cases=%d" % m], timeout=240) for i in range(1)] +
                 [dict(exe=ext, args=["mode=macros", "seed=%d" % (s + 40 + i), "cases=%d" % ctx.scale(150, 5000)], san="tsan", timeout=240) for i in range(2)])
