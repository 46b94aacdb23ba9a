from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random histories of pushes (events of 13 classes sized around the capacity and the scratch threshold), flushes and "
                "listener registrations on one timeline; non-trivial: at least two events and two batches; distinct by capacity, mode and size sequence")
    b = Builder(ctx, "asan")
    exe = b.program("p01", ["p01.cpp", "hv_events.c"])
    n = ctx.scale(12000, 40000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=240) for i in range(8)])
