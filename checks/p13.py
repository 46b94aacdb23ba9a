from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories of scheduling, removal (also from within tasks), clock steps around due times, ticks and period queries on a virtual clock, every callback checked online against a reference scheduler; "
                "non-trivial: three task runs; distinct by history")
    ctx.assumptions.append("a task that becomes due while a tick is running (the clock moves inside a callback) may run in that tick or the next; ticks are not nested")
    a = Builder(ctx, "asan", defs=["HT_MONOTONIC_CLOCK_IMPL_CUSTOM"])
    exe = a.program("p13", ["p13.cpp"])
    n = ctx.scale(2500, 60000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n, "many=%d" % (i < ctx.scale(1, 6))], timeout=300) for i in range(6)])
