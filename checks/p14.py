from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random operation sequences on bags (three element types), stacks, hash maps (colliding keys) and listener buffers with an always-moving, poisoning allocator that fails on demand, compared with abstract models after every step; "
                "non-trivial: the container outgrew its first capacity, held colliding keys or flushed more than twice; distinct by operation sequence")
    ctx.assumptions.append("lists and stacks are created with a capacity of at least one, as everywhere in the library")
    a = Builder(ctx, "asan")
    exe = a.program("p14", ["p14.cpp", "hv_events.c"])
    n = ctx.scale(2000, 30000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=ctx.scale(150, 800)) for i in range(8)])
