from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories of init (with generated argument vectors in exact-size buffers), nested init, deinit, class registration, timeline creation/destruction, listeners, pushes, metadata and threads with a global timeline that "
                "end before or after shutdowns, under ASan/UBSan/LeakSanitizer; judged against a model of what each listener gets byte for byte; TCP listeners living across shutdowns with clients connecting at any moment (ASan, TSan); non-trivial: a case with at least two full cycles; distinct by history")
    ctx.assumptions += ["events of a class are only pushed in a cycle in which the class is registered; after a full shutdown the program registers its own classes again",
                        "a timeline created before a full shutdown keeps its own listeners afterwards",
                        "options are only given to the first initialisation of a cycle; a value with trailing characters (12abc) is not judged"]
    b = Builder(ctx, "asan")
    exe = b.program("p25", ["p25.cpp", "hv_events.c"])
    n = ctx.scale(700, 20000)
    lt, la = Builder(ctx, "tsan").program("p25lt", ["p25l.cpp", "hv_events.c"]), b.program("p25l", ["p25l.cpp", "hv_events.c"])
    jobs = [dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=ctx.scale(120, 800)) for i in range(8)]
    jobs += [dict(exe=(la if i % 2 else lt), san=("asan" if i % 2 else "tsan"), args=["seed=%d" % (ctx.seed * 100 + 50 + i), "cases=%d" % ctx.scale(60, 3000), "port=%d" % (21000 + 600 * i)], timeout=ctx.scale(120, 1500)) for i in range(8)]
    ctx.parallel(jobs)
