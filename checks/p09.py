from vlib.core import Builder


def run(ctx):
    ctx.rule = ("byte streams: valid ones, every/random truncations, byte-level corruptions (flip, set, delete, insert, duplicate) and hand-crafted hostile class "
                "descriptions, each parsed flat and nested; non-trivial: longer than one event header; distinct by content")
    exes = [Builder(ctx, "asan", ndebug=n).program("p09", ["p09.cpp"], parts=("lib", "parser")) for n in (False, True)]
    n = ctx.scale(1500, 30000)
    ctx.parallel([dict(exe=exes[i % 2], args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], timeout=120 if not ctx.thorough else 900) for i in range(8)])
