import os
import pickle

from checks import p16
from vlib import core, htdump, htread, pyext
from vlib.core import Builder


def expected(data):
    out = []
    rd = htread.Reader(data)
    try:
        for name, v in rd.events():
            out.append((name.encode().decode("utf-8", "surrogateescape"),
                        {k.encode().decode("utf-8", "surrogateescape"): (x.decode("utf-8", "surrogateescape") if isinstance(x, bytes) else x) for k, x in v.items()}))
    except htread.Malformed:
        pass
    return out


def run(ctx):
    ctx.rule = ("random streams (both byte orders, signed and unsigned integers of every width, any bytes in strings, inherited fields, truncation) read from files and over TCP through the extension in the real interpreter under ASan/UBSan, by polling and by callbacks, and compared with an independent decoding; "
                "clients used in any order by several threads and by their own callbacks, left running at exit, dropped in reference cycles; memory and reference counts across repeated use; non-trivial: every stream and chaos program; distinct by stream and by program")
    ctx.assumptions += ["bytes that are not UTF-8 are read as surrogate escapes", "a client's events are polled until the queue is empty after the end of the stream"]
    b = Builder(ctx, "asan")
    root = pyext.build(ctx, b, "client")
    script = os.path.join(core.HARNESS, "p23_py.py")
    jobs = []
    plan = [("values", ctx.scale(10, 200), 40), ("chaos", ctx.scale(24, 600), 120), ("leave", ctx.scale(16, 400), 0), ("unstarted", ctx.scale(1, 4), 30), ("leak", ctx.scale(1, 4), 0)]
    for mode, n, iters in plan:
        for i in range(n):
            d = os.path.join(ctx.tmp, "%s%d" % (mode, i))
            os.makedirs(d)
            r = htdump.rng(ctx.seed, "p23", mode, i)
            k = 0
            while k < (30 if mode == "values" else 5 if mode == "chaos" else 2):
                data, _ = p16.gen(r)
                if mode != "values" and len(data) < 2500:
                    continue
                if mode == "values" and k % 10 == 0 and len(data) < 2500:
                    continue
                exp = expected(data)
                with open(os.path.join(d, "s%02d.htdump" % k), "wb") as f:
                    f.write(data)
                with open(os.path.join(d, "s%02d.pkl" % k), "wb") as f:
                    pickle.dump(exp, f)
                ctx.sig(data)
                k += 1
            jobs.append(dict(exe=pyext.PY, args=[script, ctx.seed * 10000 + i, mode, d, iters], env=pyext.env(b, root), timeout=60 if not ctx.thorough else 200))
            ctx.sig((mode, i))
            ctx.stat("programs_" + mode)
    for r in ctx.parallel(jobs):
        if not r.timeout and not r.done:
            ctx.inconclusive.append("no end")
