import os
import subprocess
from vlib import core
from vlib.core import Builder, CheckError

REN = {f: "hv_sys_" + f for f in ("fopen", "socket", "setsockopt", "bind", "listen", "accept", "send", "recv", "connect", "shutdown", "close")}
REN["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = "hv_sys_thread"
REN["pthread_create"] = "hv_sys_pthread_create"


def build(ctx, name, config, harness="p29.cpp", ren=REN, san="asan"):
    a = Builder(ctx, san, config=config)
    own = a.compile([os.path.join(core.HARNESS, f) for f in (harness, "hv_events.c", "perturb.cpp")], True)
    out = []
    for o in a.compile(core.lib_sources() + core.parser_sources() + core.client_utils_sources()):
        d = os.path.join(ctx.tmp, name + "-ren-" + os.path.basename(o))
        cmd = ["objcopy"]
        for k, v in ren.items():
            cmd += ["--redefine-sym", "%s=%s" % (k, v)]
        r = subprocess.run(cmd + [o, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("objcopy: " + r.stdout.decode()[-500:])
        out.append(d)
    return a.link(name, own + out)


def run(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("random workloads (two trace files; TCP listener with two clients and a file; reading a file or a TCP source; usage readings) repeated with each system call of each kind failing, being interrupted or doing a part, "
                "at every call (up to a cap per kind, first and last included); distinct: workload, call and failure")
    ctx.assumptions += ["the C library's stream buffering is real, its underlying write, read and close are simulated", "calls of ht_init itself are not failed", "closing a descriptor releases it even when it reports an error (Linux)"]
    exe, pexe = build(ctx, "p29", None), build(ctx, "p29p", dict(extra=("HT_MUTEX_IMPL_POSIX", "HT_THREAD_IMPL_POSIX")))
    jobs = []
    n = dict(file=ctx.scale(20, 400), tcp=ctx.scale(5, 60), filereader=ctx.scale(20, 300), tcpreader=ctx.scale(6, 150), usage=ctx.scale(4, 60))
    for i in range(8):
        for j, (m, c) in enumerate(n.items()):
            prog = pexe if i % 4 == 3 else exe
            if m == "usage" and i:
                continue
            d = os.path.join(ctx.tmp, "d-%s-%d" % (m, i))
            os.makedirs(d, exist_ok=True)
            jobs.append(dict(exe=prog, args=["seed=%d" % (ctx.seed * 100 + i), "mode=" + m, "cases=%d" % c, "dir=" + d, "cap=%d" % ctx.scale(6, 25), "port=%d" % (22000 + 1000 * i)], timeout=ctx.scale(300, 3000)))
    ctx.parallel(jobs)
