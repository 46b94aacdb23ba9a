from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random open/close/push/flush histories (explicit calls, C++ and C scoped macros, early returns and exceptions, nesting up to thousands, five event classes of different sizes, "
                "hand-over to other threads) on a virtual clock; every delivered event is compared with the shadow stack's byte-exact expectation; non-trivial: two closed scopes, depth 2; distinct by payload sequence")
    ctx.assumptions.append("the clock is replaced through the library's own HT_MONOTONIC_CLOCK_IMPL_CUSTOM option; P12 watches the real clock")
    a = Builder(ctx, "asan", defs=["HT_MONOTONIC_CLOCK_IMPL_CUSTOM"])
    exe = a.program("p07", ["p07.cpp", "p07_c.c", "hv_events.c"])
    n = ctx.scale(1600, 8000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=240) for i in range(6)])
