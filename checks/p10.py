from vlib.core import Builder


def run(ctx):
    ctx.rule = ("random class sets and events written four ways (little, big, switching either way in mid-stream) and parsed flat and nested; "
                "non-trivial: the byte images differ; distinct by the little-endian image")
    b = Builder(ctx, "asan")
    exe = b.program("p10", ["p10.cpp"], parts=("lib", "parser"))
    n = ctx.scale(300, 8000)
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=300) for i in range(8)])
