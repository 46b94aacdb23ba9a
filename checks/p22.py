import json
import os

from vlib import core, htread, pyext
from vlib.core import Builder

RC = {"normal": 0, "thread-exit": 0, "sysexit": 3, "exception": 1}


def fits(s, entries):
    """Could these recorded events be the last ones of this thread?"""
    return len(s) <= len(entries) and all(e[1] <= x[1] and x[2] <= e[2] for x, e in zip(s, entries[len(entries) - len(s):]))


def judge_file(ctx, reg, j, who):
    """One trace file against the calls logged."""
    def bad(key, d):
        ctx.violation(key, "%s: %s" % (who, d), {"log": os.path.basename(reg["path"])})
    try:
        evs = htread.decode(open(reg["path"], "rb").read())
    except (htread.Malformed, OSError) as e:
        return bad("python-trace-unreadable", e)
    maps, seqs, ids = {}, {}, set()
    for name, v in evs:
        if name == "HT_StringMappingEvent":
            if v["identifier"] in maps and maps[v["identifier"]] != v["label"]:
                return bad("python-label-reused", "identifier %d means %r and %r" % (v["identifier"], maps[v["identifier"]], v["label"]))
            maps[v["identifier"]] = v["label"]
        elif name == "HT_CallstackIntEvent":
            if v["id"] in ids:
                return bad("python-event-twice", "event id %d" % v["id"])
            ids.add(v["id"])
            seqs.setdefault(v["thread_id"], []).append((maps.get(v["label"]), v["timestamp"], v["timestamp"] + v["duration"]))
    logs = {int(k): e for k, e in j["log"].items()}
    owner, rest = {}, []
    for tid, s in seqs.items():
        root = [k for k in logs if k and s[-1][0] == b"root_%d" % k]
        if root:
            owner[root[0]] = tid
        else:
            rest.append(tid)
    for tid in rest:      # the main thread, or events of before the listener was registered
        cand = [k for k in sorted(logs, reverse=True) if k not in owner and (k == 0 or fits(seqs[tid], logs[k]))]
        if cand:
            owner[cand[0]] = tid
    if len(owner) != len(seqs):
        return bad("python-thread-ids", "threads %s have thread identifiers %s" % (sorted(owner), sorted(seqs)))
    for k, entries in logs.items():
        s = seqs.get(owner.get(k), [])
        extra = j["stats"].get("extra_tail", 0) if k == 0 else 0
        if extra:
            s = s[:len(s) - extra]
        if k == reg["thread"]:
            lo = hi = reg["pos"]
        else:
            lo, hi = 0, next((i for i, e in enumerate(entries) if e[1] > reg["t"]), len(entries))
        first = len(entries) - len(s)
        if not lo <= first <= hi:
            return bad("python-call-count", "thread %d: %d traced calls to be recorded (%d..%d allowed), %d recorded" % (k, len(entries) - hi, len(entries) - hi, len(entries) - lo, len(s)))
        for i, (lab, a, b) in enumerate(s):
            e = entries[first + i]
            known = k == reg["thread"] or e[1] > reg["t"]
            if not (e[1] <= a <= b <= e[2]):
                return bad("python-call-time", "thread %d call %d (%r): recorded %d..%d, was within %d..%d" % (k, first + i, bytes.fromhex(e[0])[:40], a, b, e[1], e[2]))
            if (lab is not None or known) and lab != bytes.fromhex(e[0]):
                return bad("python-label", "thread %d call %d: recorded label %r, function name %r" % (k, first + i, lab, bytes.fromhex(e[0])[:80]))
            for c in e[3]:
                if c >= first and not (a <= s[c - first][1] and s[c - first][2] <= b):
                    return bad("python-nesting", "thread %d: call %d is not recorded within its caller %d" % (k, c, first + i))
        ctx.stat("recorded_calls", len(s))
        ctx.sig((k, [x[0] for x in s[:200]]))
    ctx.stat("trace_files")
    if len(ctx.samples) < 3:
        ctx.sample("%s: %d threads, calls %s, last labels %s" % (who, len(seqs), [len(x) for x in seqs.values()], [str(x[-1][0])[:30] for x in seqs.values()][:4]))


def run(ctx):
    ctx.rule = ("random programs (every kind of callable, nesting, recursion, exceptions, keyword arguments, several threads, tracing switched on and off, listeners registered at any time, every kind of exit) run in the real interpreter with the extension under ASan/UBSan; "
                "results, exceptions and arguments compared with the untraced ones, trace files decoded by an independent reader; non-trivial: every recorded call; distinct by call sequences")
    ctx.assumptions += ["threads have ended (not only been joined) when the interpreter exits", "function names contain no NUL character",
                        "events of calls made before a listener is registered may or may not reach it"]
    b = Builder(ctx, "asan")
    root = pyext.build(ctx, b, "core")
    script = os.path.join(core.HARNESS, "p22_py.py")
    n = ctx.scale(192, 6000)
    jobs = []
    for i in range(n):
        mode = "single" if i % 2 else "multi"
        if i % 12 == 4:
            mode = "env"
        if i % 24 == 6:
            mode = "misc"
        if i % 24 == 9:
            mode = "leak"
        out = os.path.join(ctx.tmp, "o%d" % i)
        os.makedirs(out)
        ex = {}
        if mode == "env":
            ex["HT_PYTHON_TRACE_ENABLED"] = ["1", "0", "yes"][i // 12 % 3]
        jobs.append((out, mode, dict(exe=pyext.PY, args=[script, ctx.seed * 10000 + i, mode, out], env=pyext.env(b, root, ex), timeout=120)))

    def one(job):
        out, mode, kw = job
        r = ctx.run(expect_done=False, **kw)
        if r.timeout:
            r = ctx.run(expect_done=False, **kw)
        return job, r
    with core.cf.ThreadPoolExecutor(core.JOBS) as ex:
        rs = list(ex.map(one, jobs))
    for (out, mode, kw), r in rs:
        who = "%s program %s" % (mode, kw["args"][1])
        rep = {"cmd": r.cmd, "env": r.env, "output_tail": r.out[-4000:]}
        ctx.stat("programs_" + mode)
        ctx.evaluations += 1
        for k, d in r.violations:
            ctx.violation(k, d, rep)
        if r.timeout:
            ctx.violation("python-hang", who, rep)
            continue
        lp = os.path.join(out, "log.json")
        if not os.path.exists(lp):
            if not r.violations:
                ctx.violation("python-crash", "%s ended with %s: %s" % (who, r.rc, r.out[-1500:]), rep)
            continue
        j = json.load(open(lp))
        for k, d in j["viol"]:
            ctx.violation("python-" + k, "%s: %s" % (who, d), rep)
        for k, v in j["stats"].items():
            if k != "extra_tail":
                ctx.stat(k, v)
        if r.rc != RC[j["exit"]] and not r.violations:
            ctx.violation("python-exit", "%s: exit status %s after %s: %s" % (who, r.rc, j["exit"], r.out[-1500:]), rep)
        for reg in j["regs"]:
            judge_file(ctx, reg, j, who)
