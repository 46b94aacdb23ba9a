from vlib.core import Builder


def run(ctx):
    ctx.rule = ("made-up /proc files of processes that do not exist (any name, values up to 52 bits, short reads, absent, cut at any byte, nonsense) under a virtual clock, values compared exactly; "
                "real processes (this one and busy children with odd names) bracketed by the system's own figures before and after; non-trivial: every case; distinct by contents")
    ctx.assumptions += ["Linux; readings are at least 1 ns apart; the OS counts CPU time in clock ticks",
                        "a /proc text cut inside the last number needed is outside the property"]
    a = Builder(ctx, "asan", defs=["HT_MONOTONIC_CLOCK_IMPL_CUSTOM"])
    exe = a.program("p21", ["p21.cpp"], libs=["-Wl,--wrap=fopen"])
    n = ctx.scale(3000, 40000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=120 if not ctx.thorough else 850) for i in range(6)])
