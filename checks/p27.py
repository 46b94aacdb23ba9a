import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import htread
from vlib.flavours import FLAVOURS, SINGLE, THREADED, FlavourBuilder, FlavourError

META = ("HT_EndiannessInfoEvent", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent", "HT_SystemInfoEvent")


def normalise(data, loose):
    """The stream without what is assigned at run time: times, identifiers (kept as their rank), thread numbers, addresses of labels."""
    r = htread.Reader(data)
    evs = list(r.events())
    rank = {v: i for i, v in enumerate(sorted({f["id"] for n, f in evs if n not in META}))}
    threads, labels, out = {}, {}, []
    for name, f in evs:
        f = dict(f)
        for k in ("timestamp", "duration", "klass_id"):
            f.pop(k, None)
        if "info_klass_id" in f:
            f["info_klass_id"] = r.names[f["info_klass_id"]]
        i = f.pop("id")
        if name not in META and not loose:
            f["id"] = rank[i]
        if "thread_id" in f:
            f["thread_id"] = threads.setdefault(f["thread_id"], len(threads))
        if name == "HT_StringMappingEvent":
            labels[f.pop("identifier")] = f["label"]
            if loose:
                continue
        if name == "HT_CallstackIntEvent":
            f["label"] = labels.get(f["label"], f["label"])
        if loose and name in ("HT_CallstackIntEvent", "HT_CallstackStringEvent"):
            name = "scope"
        out.append((name, f))
    # the order in which a whole label table is published again depends on addresses
    i = 0
    while i < len(out):
        j = i
        while j < len(out) and out[j][0] == "HT_StringMappingEvent":
            j += 1
        if j > i + 1:
            ids = sorted(f.get("id", 0) for _, f in out[i:j])
            run = sorted(out[i:j], key=lambda e: e[1]["label"])
            for x, (_, f) in zip(ids, run):
                if "id" in f:
                    f["id"] = x
            out[i:j] = run
        i = max(j, i + 1)
    return out


def build_all(ctx, todo, fn):
    """Builds in parallel; what does not build is a violation."""
    built = {}

    def one(k):
        try:
            return k, fn(k), None
        except FlavourError as e:
            return k, None, str(e)
    with ThreadPoolExecutor(4) as ex:
        for k, exe, err in ex.map(one, todo):
            if err:
                ctx.violation("does-not-build:%s" % k[0], "%s: %s" % (k, err[-1500:]))
            else:
                built[k] = exe
    return built


def programs(ctx):
    """The same program with every flavour; everything it prints and writes must agree."""
    todo = []
    for n in FLAVOURS:
        for lang in ("c", "c++"):
            todo.append((n, lang, "asan", None))
            if n in ("regular", "amalgamated-c", "amalgamated-cpp", "c-only", "no-threads", "no-threads-amalgamated-c"):
                todo.append((n, lang, "plain", None))
    for o in range(ctx.scale(3, 10)):
        todo += [("amalgamated-c", "c", "plain", ctx.seed * 10 + o), ("amalgamated-cpp", "c++", "plain", ctx.seed * 10 + o)]

    def build(k):
        n, lang, san, order = k
        # the unsanitised variants use the other compiler, optimise, and include the allocation hooks
        b = FlavourBuilder(ctx, n, san) if san == "asan" else FlavourBuilder(ctx, n, "plain", alloc_hooks=True, cc="gcc", cxx="g++", cov=False, opt="-O2")
        return b.user_program(lang, order)
    exes = build_all(ctx, todo, build)
    ctx.stat("program_builds", len(exes))
    cases = [ctx.seed * 100000 + i for i in range(ctx.scale(70, 1500))]
    few = cases[:ctx.scale(8, 60)]

    def run_one(k, cn):
        d = tempfile.mkdtemp(dir=ctx.tmp)
        r = ctx.run(exes[k], [d, cn], san=k[2], timeout=60, expect_done=False)
        if r.timeout and not ctx.found:
            r = ctx.run(exes[k], [d, cn], san=k[2], timeout=120, expect_done=False)
            ctx.found |= r.timeout
        files = {}
        for x in sorted(os.listdir(d)):
            with open(os.path.join(d, x), "rb") as f:
                files[x] = f.read()
        shutil.rmtree(d)
        return r, files

    def norm(log):
        return "\n".join(x for x in log.splitlines() if not x.startswith("HV-") and not x.startswith("hooks")), [x for x in log.splitlines() if x.startswith("hooks")]

    def judge(cn):
        bad, res = [], {}
        if ctx.found and not ctx.thorough:
            return [], 0, None, 0
        for k in exes:
            if k[3] is not None and cn not in few:
                continue
            res[k] = run_one(k, cn)
        base = ("regular", "c", "asan", None)
        if base not in res:
            return [], 0, None, 0
        ref, rfiles = res[base]
        rlog, _ = norm(ref.out)
        hooks_ref = None
        decoded = {}
        for loose in (False, True):
            for x, data in rfiles.items():
                decoded[loose, x] = normalise(data, loose)
        nev = sum(len(decoded[False, x]) for x in rfiles)
        ncmp = 0
        for k, (r, files) in res.items():
            where = "%s, %s program, %s%s" % (k[0], k[1], k[2], "" if k[3] is None else ", file order %d" % k[3])
            if r.timeout:
                bad.append(("hang:%s" % k[0], "case %d: %s" % (cn, where), r))
                continue
            if r.violations or r.rc:
                kk = r.violations[0][0] if r.violations else "exit-%s" % r.rc
                bad.append(("%s:%s" % (kk, k[0]), "case %d: %s: %s" % (cn, where, r.out[-2500:]), r))
                continue
            log, hooks = norm(r.out)
            if log != rlog:
                a, b = rlog.splitlines(), log.splitlines()
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                bad.append(("results-differ:%s" % k[0], "case %d: %s: line %d: regular %r, here %r" % (cn, where, i, a[i:i + 2], b[i:i + 2]), r))
            if k[2] == "plain":
                if hooks_ref is None:
                    hooks_ref = hooks
                if hooks != hooks_ref or not hooks or hooks[0] != "hooks 1 1 1 1 1 1 2 2":
                    bad.append(("hooks-differ:%s" % k[0], "case %d: %s: %s" % (cn, where, hooks), r))
            if set(files) != set(rfiles):
                bad.append(("files-differ:%s" % k[0], "case %d: %s: %s vs %s" % (cn, where, sorted(files), sorted(rfiles)), r))
                continue
            # in C without pthread support the library defines the function tracepoints as plain string tracepoints
            loose = k[0].startswith("no-threads") and k[1] == "c"
            for x in files:
                lo = loose and "global" in x
                try:
                    got = normalise(files[x], lo)
                except (htread.Malformed, KeyError, UnicodeDecodeError) as e:
                    bad.append(("malformed:%s" % k[0], "case %d: %s: %s: %r" % (cn, where, x, e), r))
                    continue
                want = decoded[lo, x]
                ncmp += len(want)
                if got != want:
                    i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                    bad.append(("stream-differs:%s" % k[0], "case %d: %s: %s event %d of %d/%d: regular %s, here %s" %
                                (cn, where, x, i, len(want), len(got), want[i:i + 1], got[i:i + 1]), r))
        key = (rlog, [len(v) for v in rfiles.values()]) if nev > 30 else None
        return bad, nev, key, ncmp
    with ThreadPoolExecutor(8) as ex:
        for bad, nev, key, ncmp in ex.map(judge, cases):
            ctx.evaluations += 1
            ctx.stat("reference_events", nev)
            ctx.stat("events_compared", ncmp)
            if key:
                ctx.sig(key)
            ctx.found |= bool(bad)
            for k, d, r in bad[:3]:
                ctx.violation(k, d, {"cmd": r.cmd, "output_tail": r.out[-3000:]})
    ctx.sample("%d program builds, %d cases" % (len(exes), len(cases)))


def guarantees(ctx):
    """The monitors of the single-configuration properties, on the other flavours."""
    H = {"p01": ["p01.cpp", "hv_events.c"], "p02": ["p02.cpp", "hv_events.c"], "p04": ["p04.cpp", "hv_events.c"], "p05": ["p05.cpp", "hv_events.c"],
         "p05_exit": ["p05_exit.cpp", "hv_events.c"],
         "p06": ["p06.cpp", "hv_events.c"], "p07": ["p07.cpp", "p07_c.c", "hv_events.c"], "p08": ["p08.cpp", "p08_c.c", "hv_events.c"],
         "p11": ["p11.cpp", "hv_events.c"], "p12": ["p12.cpp", "hv_events.c"], "p13": ["p13.cpp"], "p26": ["p26.cpp", "hv_events.c"]}
    clock = {"p07", "p13"}
    T = ["amalgamated-c", "amalgamated-cpp", "c-only", "posix-primitives"]
    S = ["no-threads", "no-threads-c", "no-threads-amalgamated-c"]
    if ctx.thorough:
        T, S = [t for t in THREADED if t not in ("regular", "no-tcp")], SINGLE
    s = ctx.seed * 100
    q = ctx.scale
    jobs = []          # flavour, sanitizer, harness, args
    for i, n in enumerate(T):
        jobs += [(n, "tsan", "p02", ["cases=%d" % q(25, 400)]), (n, "tsan", "p05", ["cases=%d" % q(120, 3000)]),
                 (n, "tsan", "p06", ["cases=%d" % q(50, 800), "port=%d" % (21000 + 2000 * i)]), (n, "tsan", "p08", ["mode=conc", "cases=%d" % q(60, 1500)]),
                 (n, "tsan", "p08", ["mode=global", "cases=%d" % q(60, 1500)]), (n, "tsan", "p11", ["mode=conc", "cases=%d" % q(25, 600)]),
                 (n, "tsan", "p12", ["cases=%d" % q(25, 600)]), (n, "tsan", "p26", ["mode=threads", "cases=%d" % q(100, 2500)]),
                 (n, "asan", "p05", ["cases=%d" % q(120, 3000)]), (n, "asan", "p06", ["cases=%d" % q(50, 800), "port=%d" % (22000 + 2000 * i)])]
    for n in ("amalgamated-c", "c-only"):      # the atomics and thread-local variables chosen for gcc differ from those for clang
        jobs += [(n, "gcc-tsan", "p02", ["cases=%d" % q(25, 400)]), (n, "gcc-tsan", "p05", ["cases=%d" % q(80, 2000)]), (n, "gcc-tsan", "p12", ["cases=%d" % q(25, 600)])]
    for n in T + S:
        jobs += [(n, "asan", "p01", ["cases=%d" % q(800, 10000)]), (n, "asan", "p04", ["mode=seq", "cases=%d" % q(120, 2500)]),
                 (n, "asan", "p07", ["cases=%d" % q(120, 2500)]), (n, "asan", "p08", ["mode=single", "cases=%d" % q(120, 2500)]),
                 (n, "asan", "p13", ["cases=%d" % q(800, 15000)]), (n, "asan", "p11", ["mode=seq", "cases=%d" % q(60, 1500)])]
        jobs += [(n, "asan", "p05_exit", [])] * q(12, 200)
    shared = {}

    def build(k):
        n, san, h = k
        gcc = dict(cc="gcc", cxx="g++", cov=False) if san.startswith("gcc-") else {}
        return FlavourBuilder(ctx, n, san.replace("gcc-", ""), **gcc, defs=["HT_MONOTONIC_CLOCK_IMPL_CUSTOM"] if h in clock else []).harness_program(h, H[h], shared)
    exes = build_all(ctx, sorted({j[:3] for j in jobs}), build)
    ctx.stat("monitored_builds", len(exes))
    live = [j for j in jobs if j[:3] in exes]
    rs = ctx.parallel([dict(exe=exes[n, san, h], args=["seed=%d" % (s + 60 + i)] + a, san=san.replace("gcc-", ""), timeout=q(150, 1500)) for i, (n, san, h, a) in enumerate(live)])
    for (n, san, h, a), r in zip(live, rs):
        ctx.stat("cases_on_" + n.replace("-", "_"), r.stats.get("cases", 0))


def run(ctx):
    ctx.rule = ("one random single-threaded C99/C++11 program per case (all core features, global and own timelines, exit with pending events) against 11 flavours of the library, ASan/UBSan with clang and -O2 with gcc; "
                "the amalgamation also with shuffled directory orders; plus the monitors of P01, P02, P04-P08, P11-P13 and P26 on the flavours, under TSan and ASan; "
                "non-trivial: a program leaving more than 30 events; distinct by printed results and stream sizes")
    ctx.assumptions += ["in C without pthread support HT_G_TRACE_FUNCTION is a plain string tracepoint, as documented: there only the label text and nesting are compared",
                        "Windows parts are not built"]
    programs(ctx)
    guarantees(ctx)
