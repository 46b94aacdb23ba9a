import os
from vlib import core
from vlib.core import Builder
from checks import p29

REN = {f: "hv_sys_" + f for f in ("fopen", "fwrite", "fflush", "fclose", "send")}


def run(ctx):
    ctx.level = "exploration"
    ctx.rule = ("traced programs with 1-4 threads, shared or global timelines, one or two trace files and TCP clients end by being killed at a random moment or before, in or after a particular write, flush, close or send, by abort, _exit, quick_exit, "
                "an uncaught exception, exit while threads trace, exit after joining, an orderly shutdown, or main ending first; distinct: way of ending and what had been traced")
    ctx.assumptions += ["the machine itself keeps running (what reached the kernel stays)", "the C library flushes its streams without locks when exit() is called while other threads write; files are not judged then, only that the program ends as requested"]
    exe = p29.build(ctx, "p30", None, "p30.cpp", REN)
    pexe = p29.build(ctx, "p30p", dict(extra=("HT_MUTEX_IMPL_POSIX", "HT_THREAD_IMPL_POSIX")), "p30.cpp", REN)
    texe = p29.build(ctx, "p30t", None, "p30.cpp", REN, "tsan")
    jobs = []
    for i in range(8):
        d = os.path.join(ctx.tmp, "e%d" % i)
        os.makedirs(d, exist_ok=True)
        jobs.append(dict(exe=pexe if i % 4 == 3 else exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % ctx.scale(250, 6000), "dir=" + d, "port=%d" % (31000 + 700 * i)], timeout=ctx.scale(140, 3000)))
    for i, death in enumerate((6, 7, 8, 8)):   # the ends in which the program itself still does something
        d = os.path.join(ctx.tmp, "t%d" % i)
        os.makedirs(d, exist_ok=True)
        jobs.append(dict(exe=texe, san="tsan", args=["seed=%d" % (ctx.seed * 100 + 50 + i), "cases=%d" % ctx.scale(25, 1500), "dir=" + d, "death=%d" % death, "forks=0", "port=%d" % (37000 + 700 * i)], timeout=ctx.scale(140, 3000)))
    ctx.parallel(jobs)
