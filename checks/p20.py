import os
from vlib.core import Builder, HARNESS, lib_sources


def run(ctx):
    ctx.rule = ("random malloc/calloc/realloc/free calls (zero, ordinary, huge and overflowing sizes; NULL; hook-skipping variants; calls made inside libc and libstdc++) under every kind of hook subset, on 1-6 threads, "
                "with the hooks linked statically and from a shared library; per-thread hook log compared with the call just made; non-trivial: every case; distinct by operation sequence and hook set")
    ctx.assumptions += ["hooks are registered while no other thread allocates, and hooks themselves use only the hook-skipping functions"]
    b = Builder(ctx, "plain", config=dict(alloc_hooks=True))
    hooks = [s for s in lib_sources(alloc_hooks=True) if os.path.basename(s).startswith("alloc_hooks")]
    objs = b.compile(hooks, False, None, ("-fPIC",))
    own = b.compile([os.path.join(HARNESS, "p20.cpp"), os.path.join(HARNESS, "perturb.cpp")], True)
    static = b.link("p20s", own + objs)
    lib = b.link("libp20hooks.so", objs, ("-Wl,--allow-shlib-undefined",), shared=True)
    shared = b.link("p20d", own, (lib, "-Wl,-rpath," + os.path.dirname(lib)))
    n = ctx.scale(1500, 20000)
    ctx.parallel([dict(exe=e, args=["seed=%d" % (ctx.seed * 100 + i), "cases=%d" % n], san="plain", timeout=120 if not ctx.thorough else 850) for i in range(4) for e in (static, shared)])
