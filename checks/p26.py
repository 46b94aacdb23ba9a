from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories of timelines (unnamed, named, equal and colliding names), listeners (with and without destroy callback, registered repeatedly, more than 40 in one set), pushes, flushes, unregistration, features (up to 70 classes, refused "
                "attachments), destruction before and after shutdown, judged call by call against a reference model under ASan/UBSan/LeakSanitizer; plus 2-6 threads creating, using and destroying timelines of shared sets under TSan and ASan; "
                "non-trivial: at least two timelines share a set; distinct by history (concurrent cases by seed)")
    ctx.assumptions += ["unregistering listeners (deprecated in the documentation) is not concurrent with tracing on a timeline of the same set",
                        "listener and destroy callbacks do not call back into the set they belong to"]
    a, t = Builder(ctx, "asan"), Builder(ctx, "tsan")
    exa, ext = a.program("p26a", ["p26.cpp", "hv_events.c"]), t.program("p26t", ["p26.cpp", "hv_events.c"])
    n, m = ctx.scale(3500, 40000), ctx.scale(500, 6000)
    ctx.parallel([dict(exe=exa, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=ctx.scale(120, 800)) for i in range(4)] +
                 [dict(exe=ext, args=["mode=threads", "seed=%d" % (ctx.seed * 100 + 20 + i), "cases=%d" % m], san="tsan", timeout=ctx.scale(120, 800)) for i in range(3)] +
                 [dict(exe=exa, args=["mode=threads", "seed=%d" % (ctx.seed * 100 + 40), "cases=%d" % m], timeout=ctx.scale(120, 800))])
