from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random streams (class trees, both byte orders, flat and nested) whose events are copied, assigned, moved, swapped, merged, extended and destroyed in random order after the reader and its register are gone, "
                "registers queried by several threads while descriptions arrive, and printed events; distinct by stream and operations")
    ctx.assumptions += ["the field descriptions passed to set_value() outlive the event", "nothing but ownership is required when a value is set a second time"]
    a = Builder(ctx, "asan")
    exe = a.program("p28", ["p28.cpp"], parts=("lib", "parser"))
    t = Builder(ctx, "tsan")
    texe = t.program("p28t", ["p28.cpp"], parts=("lib", "parser"))
    nv, nr, nd = ctx.scale(250, 6000), ctx.scale(25, 500), ctx.scale(200, 5000)
    jobs = []
    for i in range(8):
        s = "seed=%d" % (ctx.seed * 100 + i)
        jobs.append(dict(exe=exe, args=[s, "mode=values", "cases=%d" % nv], timeout=600))
        jobs.append(dict(exe=texe, args=[s, "mode=register", "cases=%d" % nr, "threads=%d" % (1 + i % 4), "perturb=%d" % (0 if i % 2 else 200)], san="tsan", timeout=600))
        if i < 4:
            jobs.append(dict(exe=exe, args=[s, "mode=debug", "cases=%d" % nd], timeout=600))
    ctx.parallel(jobs)
