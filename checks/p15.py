import os
import subprocess
from vlib import core
from vlib.core import Builder, CheckError

REN = {"malloc": "hv_lib_malloc", "calloc": "hv_lib_calloc", "realloc": "hv_lib_realloc", "free": "hv_lib_free", "strdup": "hv_lib_strdup"}
CXX = {"_Znwm": "hv_lib_new", "_Znam": "hv_lib_newa", "_ZdlPv": "hv_lib_delete", "_ZdlPvm": "hv_lib_deletes", "_ZdaPv": "hv_lib_deletea"}


def run(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("every allocation of 21 workloads (timelines, listener sets, features, file and TCP listeners, scheduler, classes, global timelines, usage contexts, tracepoints) failed once in turn under a shadow allocator "
                "(in the quick tier the two workloads with thousands of allocations are sampled at both ends and in between); non-trivial and distinct: a different allocation really failed")
    ctx.assumptions += ["allocations made by ht_init itself are not failed", "memory the C++ runtime or the C library obtain on their own (threads, FILE buffers) is outside the library's allocator",
                        "no zero-capacity timelines here (the allocator interface cannot tell a request for no bytes from a release)"]
    a = Builder(ctx, "asan")
    own = a.compile([os.path.join(core.HARNESS, f) for f in ("p15.cpp", "hv_events.c", "perturb.cpp")], True)
    srcs = core.lib_sources()
    objs = a.compile(srcs)
    out = []
    for s, o in zip(srcs, objs):
        d = os.path.join(ctx.tmp, "ren-" + os.path.basename(o))
        ren = dict(REN)
        if not s.endswith("tcp_server.cpp"):  # std::thread
            ren.update(CXX)
        cmd = ["objcopy"]
        for k, v in ren.items():
            cmd += ["--redefine-sym", "%s=%s" % (k, v)]
        r = subprocess.run(cmd + [o, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("objcopy: " + r.stdout.decode()[-500:])
        out.append(d)
    exe = a.link("p15", own + out)
    n = 8
    ctx.parallel([dict(exe=exe, args=["seed=%d" % (ctx.seed * 100 + i), "part=%d" % i, "parts=%d" % n, "max=%d" % ctx.scale(260, 100000)], timeout=ctx.scale(300, 3000)) for i in range(n)])
