"""Framework: builds /repo's current sources with monitors on, runs harnesses,
classifies what the monitors saw, writes evidence and verdict."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
CACHE = os.path.join(VERIF, "build", "cache")
REPLAY = os.path.join(VERIF, "build", "replay")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8
ALLOC_HOOKS = "lib/platform/linux/alloc_hooks.c"


class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""


def log(msg):
    print(msg, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,function,nonnull-attribute,pointer-overflow",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _headers_digest():
    h = hashlib.sha256()
    for base in ("lib", "parser", "client", "client_utils", "bindings"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".in", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + _read(p))
    for f in sorted(glob.glob(os.path.join(HARNESS, "*.h*"))):
        h.update(_read(f))
    return h.hexdigest()


def config_header(out_dir, threads=True, tcp=True, pthreads=True, extra=(), alloc_hooks=True):
    """Generates ht_config.h from /repo's template, as cmake would."""
    tpl = _read(os.path.join(REPO, "lib/include/hawktracer/ht_config.h.in")).decode()
    on = {"HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED": True, "HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED": True,
          "HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED": alloc_hooks, "HT_USE_PTHREADS": pthreads and threads,
          "HT_ENABLE_TCP_LISTENER": tcp and threads, "HT_ENABLE_THREADS": threads, "HT_COMPILE_STATIC": False}
    m = re.search(r"project\s*\(\s*HawkTracer\s+VERSION\s+([0-9.]+)", _read(os.path.join(REPO, "CMakeLists.txt")).decode(), re.I)
    ver = None
    if m:
        ver = m.group(1).split(".")
    else:
        txt = _read(os.path.join(REPO, "CMakeLists.txt")).decode()
        parts = [re.search(r"VERSION_%s\s+\"?(\d+)" % k, txt) for k in ("MAJOR", "MINOR", "PATCH")]
        ver = [p.group(1) if p else "0" for p in parts]

    def cd(mm):
        name = mm.group(1)
        return "#define %s" % name if on.get(name) else "/* #undef %s */" % name
    tpl = re.sub(r"#cmakedefine\s+(\w+)", cd, tpl)
    for k, v in (("PROJECT_VERSION_MAJOR", ver[0]), ("PROJECT_VERSION_MINOR", ver[1]), ("PROJECT_VERSION_PATCH", ver[2]),
                 ("PROJECT_VERSION", ".".join(ver))):
        tpl = tpl.replace("@%s@" % k, v)
    for d in extra:
        tpl = tpl.replace("#define HAWKTRACER_HT_CONFIG_H\n", "#define HAWKTRACER_HT_CONFIG_H\n#define %s\n" % d, 1)
    d = os.path.join(out_dir, "include", "hawktracer")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "ht_config.h")
    # several builders may generate it while another one compiles with it
    t = tempfile.mktemp(dir=d)
    with open(t, "w") as f:
        f.write(tpl)
    os.replace(t, p)
    return os.path.join(out_dir, "include")


def lib_sources(tcp=True, pthreads=True, alloc_hooks=False):
    src = sorted(glob.glob(REPO + "/lib/*.c") + glob.glob(REPO + "/lib/*.cpp") + glob.glob(REPO + "/lib/listeners/*.c") +
                 glob.glob(REPO + "/lib/listeners/*.cpp") + glob.glob(REPO + "/lib/platform/linux/*.c"))
    out = []
    for s in src:
        b = os.path.basename(s)
        if b.startswith("alloc_hooks") and not alloc_hooks:
            continue
        out.append(s)
    return out


def parser_sources():
    return sorted(glob.glob(REPO + "/parser/*.cpp"))


def client_sources(main=False):
    return [s for s in sorted(glob.glob(REPO + "/client/*.cpp")) if main or os.path.basename(s) != "main.cpp"]


def client_utils_sources():
    return sorted(glob.glob(REPO + "/client_utils/*.cpp"))


INCLUDES = ["lib/include", "parser/include", "client_utils/include", "client", "client/include"]


class Builder:
    def __init__(self, ctx, san="asan", cc="clang", cxx="clang++", cov=True, opt="-O1", defs=(), ndebug=None,
                 config=None, cxxstd="c++11"):
        self.ctx, self.san, self.cc, self.cxx = ctx, san, cc, cxx
        self.cov = cov and cc == "clang"
        self.opt, self.defs = opt, list(defs)
        self.ndebug = san != "asan" if ndebug is None else ndebug   # the project's own assertions are monitors too
        self.cxxstd = cxxstd
        cfg = config or {}
        self.cfg_dir = config_header(os.path.join(ctx.tmp, "cfg-%s" % hashlib.sha256(repr(sorted(cfg.items())).encode()).hexdigest()[:10]), **cfg)
        self.cfg_text = _read(os.path.join(self.cfg_dir, "hawktracer", "ht_config.h"))

    def inc(self):
        return ["-I" + self.cfg_dir] + ["-I" + os.path.join(REPO, i) for i in INCLUDES] + ["-I" + HARNESS]

    def _flags(self, src, own, lang=None, extra=()):
        f = [self.opt, "-g1", "-fno-omit-frame-pointer", "-fPIC", "-pthread", "-w"]
        if self.ndebug:
            f.append("-DNDEBUG")
        f += SAN[self.san]
        if self.cov and not own:
            f.append("-fsanitize-coverage=trace-pc-guard")
        cpp = (lang or ("c" if src.endswith(".c") else "c++")) == "c++"
        if lang:
            f += ["-x", lang]
        if cpp:
            f += ["-std=" + ("c++17" if own else self.cxxstd), "-include", "stdint.h"]
        else:
            f += ["-std=gnu99"]
        f += ["-D" + d for d in self.defs]
        f += list(extra)
        return cpp, f

    def compile(self, sources, own=False, lang=None, extra=(), text_deps=b""):
        """Compiles (cached by content) and returns the object paths."""
        os.makedirs(CACHE, exist_ok=True)
        dig = self.ctx.headers_digest()
        jobs, objs = [], []
        for s in sources:
            nosan = own and os.path.basename(s) == "perturb.cpp"
            cpp, fl = self._flags(s, own, lang, extra)
            if nosan:
                fl = ["-O2", "-g1", "-fPIC", "-pthread", "-std=c++17"]
                cpp = True
            cmd = [self.cxx if cpp else self.cc] + fl + self.inc() + ["-c", s]
            stable = [a for a in cmd if not a.startswith("-I" + self.ctx.tmp)]
            key = hashlib.sha256(("\0".join(stable) + dig).encode() + self.cfg_text + _read(s) + text_deps).hexdigest()[:32]
            obj = os.path.join(CACHE, key + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append((cmd, obj))

        def one(job):
            cmd, obj = job
            tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, obj)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        return objs

    def link(self, name, objs, libs=(), shared=False):
        out = os.path.join(self.ctx.tmp, name)
        cmd = [self.cxx] + SAN[self.san] + (["-shared"] if shared else []) + ["-pthread", "-g", "-o", out] + objs + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        return out

    def program(self, name, harness, parts=("lib",), libs=(), own_extra=(), repo_extra=(), extra_own_sources=()):
        """Links harness sources with the requested parts of /repo."""
        src = []
        if "lib" in parts:
            src += lib_sources()
        if "parser" in parts:
            src += parser_sources()
        if "client" in parts:
            src += client_sources()
        if "client_main" in parts:
            src += client_sources(main=True)
        if "client_utils" in parts:
            src += client_utils_sources()
        own = [os.path.join(HARNESS, h) if not os.path.isabs(h) else h for h in harness] + list(extra_own_sources)
        own.append(os.path.join(HARNESS, "perturb.cpp"))
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(self.compile, src, False, None, repo_extra)
            b = ex.submit(self.compile, own, True, None, own_extra)
            objs = b.result() + a.result()
        return self.link(name, objs, libs)


# ------------------------------------------------------------------ running
SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048:hard_rss_limit_mb=5000",
             "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99", "LSAN_OPTIONS": "exitcode=98"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=97:report_thread_leaks=0:history_size=4:second_deadlock_stack=1"},
    "plain": {},
}


class Result:
    def __init__(self):
        self.violations = []      # (key, detail)
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.notes = []
        self.done = False
        self.rc = None
        self.out = ""
        self.timeout = False
        self.cmd = []
        self.env = {}


_FN = re.compile(r"#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.+?)\s+(?:/\S+|\(|<null>)")


def _frames(block):
    fr = []
    for line in block.splitlines():
        m = _FN.search(line)
        if m and ("/repo/" in line or REPO + "/" in line):
            fr.append(re.sub(r"\(.*", "", m.group(1)).strip())
    return fr


def sanitizer_keys(text):
    """Violation keys (line numbers stripped) from sanitizer reports in text."""
    keys = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+)(?:\(pid=\d+\))?\n(.*?)(?:\n==================|\Z)", text, re.S):
        kind, body = m.group(1).strip(), m.group(2)
        stacks = re.split(r"\n\s*\n", body)
        tops = []
        for s in stacks[:2]:
            f = _frames(s)
            if f:
                tops.append(f[0])
        keys.append(("tsan:%s:%s" % (kind.replace(" ", "-"), "|".join(sorted(set(tops))[:2])), m.group(0)[:3000]))
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([\w-]+)(.*?)(?:\nSUMMARY|\Z)", text, re.S):
        f = _frames(m.group(2))
        keys.append(("asan:%s:%s" % (m.group(1), f[0] if f else "?"), m.group(0)[:3000]))
    if "ERROR: LeakSanitizer" in text:
        i = text.index("ERROR: LeakSanitizer")
        f = _frames(text[i:])
        keys.append(("lsan:leak:%s" % (f[0] if f else "?"), text[i:i + 3000]))
    for m in re.finditer(r"(\S+?):(\d+):\d+: runtime error: ([^\n]+)", text):
        keys.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(3))[:80].replace(" ", "-")), m.group(0)))
    return keys


class Ctx:
    hung = False

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.found = False   # a run reported a violation
        self.tmp = tempfile.mkdtemp(prefix="hv-%s-" % prop)
        self._dig = None
        self.violations = []       # (key, detail, replay dict)
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.evaluations = 0
        self.inconclusive = []
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.level = "exploration"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def headers_digest(self):
        if self._dig is None:
            self._dig = _headers_digest()
        return self._dig

    # -- run one harness process
    def run(self, exe, args=(), san="asan", timeout=120, env=None, stdin=None, cwd=None, expect_done=True, wrap=()):
        e = dict(os.environ)
        for k in list(e):
            if k.endswith("SAN_OPTIONS"):
                del e[k]
        e.update(SAN_ENV[san])
        e["ASAN_SYMBOLIZER_PATH"] = e["TSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
        sigf = tempfile.mktemp(dir=self.tmp)
        e["HV_SIGFILE"] = sigf
        e["HV_TMP"] = tempfile.mkdtemp(dir=self.tmp)
        if env:
            e.update(env)
        r = Result()
        r.cmd, r.env = list(wrap) + [exe] + [str(a) for a in args], dict(env or {}, **SAN_ENV[san])
        outp = tempfile.mktemp(dir=self.tmp)
        with open(outp, "wb") as f:
            p = subprocess.Popen(r.cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                                 env=e, cwd=cwd or e["HV_TMP"], start_new_session=True)
            try:
                p.communicate(stdin, timeout=timeout)
            except subprocess.TimeoutExpired:
                r.timeout = True
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        r.rc = p.returncode
        with open(outp, "rb") as f:
            data = f.read()
        os.unlink(outp)
        r.out = data.decode("utf-8", errors="replace")
        shutil.rmtree(e["HV_TMP"], ignore_errors=True)
        for line in r.out.splitlines():
            i = line.find("HV-")
            if i < 0:
                continue
            line = line[i:]
            if line.startswith("HV-VIOLATION "):
                _, k, d = (line.split(" ", 2) + [""])[:3]
                r.violations.append((k, d))
            elif line.startswith("HV-STAT "):
                try:
                    _, k, v = line.split(" ")
                    r.stats[k] = int(v)
                except ValueError:
                    pass
            elif line.startswith("HV-SAMPLE "):
                r.samples.append(line[10:])
            elif line.startswith("HV-NOTE "):
                r.notes.append(line[8:])
            elif line.startswith("HV-DONE"):
                r.done = True
        if os.path.exists(sigf):
            b = _read(sigf)
            r.sigs = {b[i:i + 8] for i in range(0, len(b), 8)}
            os.unlink(sigf)
        r.violations += sanitizer_keys(r.out)
        if not r.timeout and expect_done:
            if r.rc and not r.violations:
                sg = -r.rc
                r.violations.append(("crash:%s" % (signal.Signals(sg).name if r.rc < 0 else "exit-%d" % r.rc), r.out[-2500:]))
            elif not r.done and not r.violations:
                r.violations.append(("early-exit", r.out[-2500:]))
        return r

    def monitor(self, exe, args=(), san="asan", timeout=120, env=None, stdin=None, cwd=None, merge=True, wrap=(), hang_key="hang"):
        """Runs a harness; a timeout is re-run once (twice as long) before it counts as a hang."""
        if not self.thorough:
            timeout = min(timeout, 150)
        if self.hung:       # already settled; do not wait for the other runs
            timeout = min(timeout, 30)
        r = self.run(exe, args, san, timeout, env, stdin, cwd, wrap=wrap)
        if r.timeout and not r.violations and self.found:
            return r        # something else is wrong already
        if r.timeout and not r.violations:
            log("note: timeout after %ss, re-running: %s" % (timeout, " ".join(r.cmd)))
            r2 = self.run(exe, args, san, timeout * 2, env, stdin, cwd, wrap=wrap)
            if r2.timeout and not r2.violations:
                self.hung = True
                r2.violations.append((hang_key, "did not finish within %ss nor, re-run, within %ss; tail: %s" % (timeout, timeout * 2, r2.out[-1500:])))
            r = r2
        if r.violations:
            self.found = True
        if merge:
            self.merge(r)
        return r

    def parallel(self, jobs, workers=JOBS):
        """jobs: list of kwargs for monitor(); runs them in parallel, merging."""
        def one(j):
            j = dict(j)
            exe = j.pop("exe")
            if self.found and time.time() - self.t0 > 150 and not self.thorough:
                return Result()     # the verdict stands; leave time to report it
            return self.monitor(exe, merge=False, **j)
        with cf.ThreadPoolExecutor(workers) as ex:
            rs = list(ex.map(one, jobs))
        for r in rs:
            self.merge(r)
        return rs

    def merge(self, r):
        for k, v in r.stats.items():
            if k.startswith("max_") or k.startswith("edges_"):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        self.evaluations += r.stats.get("cases", 0)
        self.sigs |= r.sigs
        if len(self.samples) < 8:
            self.samples += r.samples[: 8 - len(self.samples)]
        for k, d in r.violations:
            self.violation(k, d, {"cmd": r.cmd, "env": r.env, "output_tail": r.out[-6000:]})

    def violation(self, key, detail, replay=None):
        self.violations.append((key, detail, replay or {}))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sig(self, x):
        self.sigs.add(hashlib.sha256(repr(x).encode()).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(str(s)[:1500])

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ------------------------------------------------------------------ findings
def load_findings():
    """Lines of known_findings.txt: 'KNOWN property=<id> key=<exact key> <what fails>' or 'fixed: ...'."""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+)(?: detail=/(.*?)/)? (.*)", line.strip())
            if m:
                known.append({"property": m.group(1), "key": m.group(2), "detail": m.group(3), "what": m.group(4)})
    return known


def finish(ctx, min_evals=1):
    known = [k for k in load_findings() if k["property"] == ctx.prop]
    new, seen = [], {}
    for key, detail, rep in ctx.violations:
        hit = None
        for k in known:
            if k["key"] == key and (not k["detail"] or re.search(k["detail"], detail)):
                hit = k
                break
        if hit:
            seen[hit["key"] + (hit["detail"] or "")] = hit
        else:
            new.append((key, detail, rep))
    cov = {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.sigs), "rule": ctx.rule,
           "samples": ctx.samples or ["(none)"], "observed": {k: v for k, v in sorted(ctx.stats.items())}}
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2), "assumptions": ctx.assumptions, "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        done = set()
        for key, detail, rep in new:
            if key in done:
                continue
            done.add(key)
            path = os.path.join(REPLAY, "%s-%s.json" % (ctx.prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": ctx.prop, "key": key, "detail": detail, "seed": ctx.seed, "tier": ctx.tier,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (ctx.seed, ctx.tier, ctx.prop), **rep}, f, indent=1)
            log("violated: %s: %s" % (key, detail[:600]))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            if len(done) >= 10:
                break
        return 1
    if ctx.inconclusive:
        log("inconclusive: %s" % "; ".join(ctx.inconclusive))
        return 3
    if ctx.evaluations < min_evals or not ctx.sigs:
        log("the monitors observed nothing (evaluations=%d distinct=%d)" % (ctx.evaluations, len(ctx.sigs)))
        return 3
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (ctx.prop, ctx.tier, ctx.evaluations, len(ctx.sigs), time.time() - ctx.t0))
    return 0
