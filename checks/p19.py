import concurrent.futures as cf
import json
import os
import re
import socket
import subprocess
import threading
import time
from checks import p16, p17
from vlib import htdump as H
from vlib.core import Builder, SAN_ENV

TZ = "XYZ-9:30"


def map_files(r, d, initial):
    """Spreads the mappings over map files (some overridden by later files); returns the --map value or None."""
    if not initial:
        return None
    files = []
    items = list(initial.items())
    for i, chunk in enumerate([items[k::2] for k in range(2)] if len(items) > 1 and r.random() < 0.6 else [items]):
        lines = []
        if i == 0 and len(items) > 1 and r.random() < 0.5:   # an earlier file says otherwise
            lines += ["native stale%d %d" % (n, k) for n, (k, _) in enumerate(items)]
        for k, v in chunk:
            lines.append(r.choice(["native", "lua", "default", "x"]) + r.choice([" ", "  ", "\t"]) + v.decode() + r.choice([" ", "\t "]) + str(k))
        p = os.path.join(d, "map%d" % i)
        with open(p, "w") as f:
            f.write("\n".join(lines) + r.choice(["", "\n", "\n\n"]))
        files.append(p)
    if r.random() < 0.15:
        files.insert(r.randrange(len(files) + 1), os.path.join(d, "no-such-map"))
    return ",".join(files)


def initial_for_chrome(r):
    if r.random() < 0.35:
        return {}
    ids = [r.getrandbits(64) for _ in range(r.randrange(1, 6))] + r.choice([[], [2 ** 64 - 1], [1]])
    return {k: "".join(r.choice("abcXYZ019_:<>~,.-'\"\\{}") for _ in range(r.choice([1, 5, 20, 200]))).encode() for k in ids}


def expand(path, t):
    return time.strftime(path, time.localtime(t))


def run(ctx):
    ctx.rule = ("the client program (ASan/UBSan) run as a process on generated traces, map files, formats, option orders, output paths (time placeholders, 1 to ~3000 characters) and TCP sources, and on erroneous command lines, sources and outputs; "
                "outputs compared as in P16/P17, exit status judged; non-trivial: every run; distinct by command line and trace")
    ctx.assumptions += ["a map file lists 'category label number' per line; an unreadable map file is reported and skipped",
                        "a TCP trace is complete when Enter is pressed well after the peer has closed the connection (re-run with five times the wait before an incomplete output counts)"]
    exe = Builder(ctx, "asan").program("client", [], parts=("lib", "parser", "client_main", "client_utils"))
    os.environ["TZ"] = TZ
    time.tzset()
    env = dict(os.environ, **SAN_ENV["asan"])
    lock = threading.Lock()
    n_ok, n_err, n_tcp = ctx.scale(160, 4000), ctx.scale(120, 1500), ctx.scale(6, 60)

    def call(args, cwd, stdin=b"\n", timeout=90):
        try:
            p = subprocess.run([exe] + args, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"")[-1500:].decode("utf-8", "replace")
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def crashed(rc, out):
        return rc != "timeout" and (rc < 0 or rc in (97, 98, 99) or "Sanitizer" in out or "runtime error" in out)

    def bad(key, detail, args, out=""):
        with lock:
            ctx.violation(key, "%s; args %r" % (detail[:1200], args), {"cmd": [exe] + args, "output_tail": out[-4000:]})

    def judge(fmt, base, want):
        if fmt == "callgrind":
            return p17.judge(base, want)
        try:
            with open(base, "rb") as f:
                doc = json.loads(f.read().decode("utf-8"))
        except (OSError, ValueError) as e:
            return "bad-output", repr(e)
        return p16.compare(doc, want)

    def good(i):
        r = H.rng(ctx.seed, "p19", i)
        d = os.path.join(ctx.tmp, "g%d" % i)
        os.makedirs(d)
        fmt = r.choice(["chrome-tracing", "chrome-tracing", "callgrind", None])
        if fmt == "callgrind":
            initial = {}
            data, want = p17.gen(r, initial)
        else:
            initial = initial_for_chrome(r)
            data, want = p16.gen(r, initial)
        src = os.path.join(d, r.choice(["trace", "127.0.0.1:80", "127.0.0.1", "a b.htdump", "x" * 200]))
        with open(src, "wb") as f:
            f.write(data)
        if r.random() < 0.3:
            src = os.path.basename(src)
        name = r.choice(["out", "out-%Y%m%d", "%H_%M_%S-%d-%m-%Y.json", "100%%-%j", "a b", "y" * 150, "%Y" * 40, "z%S" * 30])
        sub = d
        for _ in range(r.choice([0, 0, 1, 5, 11])):
            sub = os.path.join(sub, "d" * r.choice([10, 120, 250]))
        os.makedirs(sub, exist_ok=True)
        outdir = os.path.join(sub, "o")
        os.makedirs(outdir)
        out = os.path.join(outdir, name)
        args = [["--source", src]]
        default_out = r.random() < 0.08 and fmt != "callgrind"
        if default_out:
            out = os.path.join(d, "hawktracer-trace-%d-%m-%Y-%H_%M_%S.httrace")
        else:
            args.append(["--output", out])
        if fmt:
            args.append(["--format", fmt])
        mf = map_files(r, d, initial)
        if mf:
            args.append(["--map", mf])
        r.shuffle(args)
        args = sum(args, [])
        t0 = int(time.time())
        rc, txt = call(args, d)
        t1 = int(time.time())
        with lock:
            ctx.evaluations += 1
            ctx.sig((args[::2], data, name, len(out)))
            ctx.stat("conversions")
            ctx.stat("with_maps", 1 if mf else 0)
            ctx.stat("longest_path", max(0, len(out) - ctx.stats.get("longest_path", 0)))
            if i < 3:
                ctx.sample("%d-byte trace, %s, output path of %d characters, maps %s -> exit %s" % (len(data), fmt, len(out), bool(mf), rc))
        if rc == "timeout":
            return bad("hang", "conversion of a file did not finish", args, txt)
        if crashed(rc, txt):
            return bad("crash", "exit %s: %s" % (rc, txt[-800:]), args, txt)
        if rc != 0:
            return bad("failed", "conversion of a %d-byte trace exited %d: %s" % (len(data), rc, txt[-400:]), args, txt)
        outs = [o for o in dict.fromkeys(expand(out, t) for t in range(t0, t1 + 1))]
        errs = [judge(fmt, o, want) for o in outs if fmt == "callgrind" or os.path.exists(o)]
        if not errs:
            return bad("wrong-path", "no output at %r; directory has %r" % (outs[0], os.listdir(os.path.dirname(out))[:5]), args, txt)
        if all(errs):
            return bad(errs[-1][0], errs[-1][1], args, txt)
        allowed = 0 if default_out else (len(want) if fmt == "callgrind" else 1)
        if not default_out and len(os.listdir(outdir)) != allowed:
            return bad("extra-file", "%r" % os.listdir(outdir)[:5], args, txt)
        return None

    def wrong(i):
        r = H.rng(ctx.seed, "p19e", i)
        d = os.path.join(ctx.tmp, "e%d" % i)
        os.makedirs(d)
        data, _ = p16.gen(r)
        threads = {}
        while not threads:   # a trace with something to write
            cdata, threads = p17.gen(r)
        src, csrc, out = os.path.join(d, "t"), os.path.join(d, "c"), os.path.join(d, "out")
        for p, x in ((src, data), (csrc, cdata)):
            with open(p, "wb") as f:
                f.write(x)
        base = ["--source", src, "--output", out]
        word = "".join(r.choice("abc-=\xe9%\n") for _ in range(r.randrange(1, 12)))
        os.makedirs(os.path.join(d, "out.dir"))
        os.makedirs(os.path.join(d, "cg", "o.%d" % next(iter(threads))))
        what, args = r.choice([
            ("unknown option", base + ["--" + "q" + word, "v"]), ("unknown option", ["--sourc", src] + base), ("positional argument", base + [word.lstrip("-") or "w"]), ("bare prefix", base + ["--"]), ("single dash", base + ["-source", "x"]), ("empty argument", base + [""]),
            ("missing value", base + ["--format"]), ("missing value", ["--output", out, "--source"]), ("missing value", base + ["--map"]), ("no source", ["--output", out]), ("no arguments", []), ("no source", ["--format", "callgrind"]),
            ("unknown format", base + ["--format", word]), ("unknown format", base + ["--format", ""]), ("unknown format", base + ["--format", "chrome"]),
            ("absent source", ["--source", os.path.join(d, "absent"), "--output", out]), ("empty source", ["--source", "", "--output", out]), ("bad address", ["--source", r.choice(["127.0.0", "1.2.3:80", "localhost:8765", "a.b.c.d", ":80", "256.0.0.1:80", "127.0.0.1:65536", "127.0.0.1:99999", "1.2.3.999", "1.2.3.4.5", "1.2.3.4.txt", "1. 2.3.4", "1234.1.1.1", "4294967297.1.1.1", "+1.2.3.4"]), "--output", out]),
            ("directory as source", ["--source", d, "--output", out]), ("directory as source", ["--source", d, "--output", out, "--format", "callgrind"]),
            ("output in an absent directory", ["--source", src, "--output", os.path.join(d, "no", "out")]), ("output is a directory", ["--source", src, "--output", os.path.join(d, "out.dir")]), ("full device", ["--source", csrc, "--output", "/dev/full"]),
            ("callgrind output in an absent directory", ["--source", csrc, "--output", os.path.join(d, "no", "out"), "--format", "callgrind"]), ("callgrind output is a directory", ["--source", csrc, "--output", os.path.join(d, "cg", "o"), "--format", "callgrind"]),
            ("name too long", ["--source", src, "--output", os.path.join(d, "n" * 300)]), ("path too long", ["--source", src, "--output", os.path.join(d, *["n" * 200] * 30)]),
        ])
        rc, txt = call(args, d, timeout=30)
        with lock:
            ctx.evaluations += 1
            ctx.sig((what, args[-1:], len(data)))
            ctx.stat("error_cases")
        if rc == "timeout":
            return bad("hang", "%s: did not exit" % what, args, txt)
        if crashed(rc, txt):
            return bad("crash", "%s: exit %s: %s" % (what, rc, txt[-800:]), args, txt)
        if rc == 0:
            return bad("error-unreported", "%s: exit status 0; said %s" % (what, txt[-300:]), args, txt)
        return None

    def tcp(i, wait=1.5):
        r = H.rng(ctx.seed, "p19t", i)
        d = os.path.join(ctx.tmp, "t%d-%d" % (i, int(wait * 10)))
        os.makedirs(d)
        initial = initial_for_chrome(r)
        data, want = p16.gen(r, initial)
        l = socket.socket()
        l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        spec = "127.0.0.%d" % (1 + i)
        try:
            if i % 3 == 0:
                l.bind((spec, 8765))
            else:
                l.bind((spec, 0))
                spec += ":%d" % l.getsockname()[1]
        except OSError:
            ctx.stat("port_unavailable")
            return None
        out = os.path.join(d, "out")
        args = ["--source", spec, "--output", out]
        mf = map_files(r, d, initial)
        if mf:
            args += ["--map", mf]
        p = subprocess.Popen([exe] + args, cwd=d, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        time.sleep(r.choice([0, 0.05]))
        l.listen(1)
        l.settimeout(60)
        try:
            c, _ = l.accept()
            for k in range(0, len(data), 700):
                c.sendall(data[k:k + 700])
            c.close()
        except socket.timeout:
            p.kill()
            p.communicate()
            return bad("not-connected", "the program never connected to %s" % spec, args)
        except OSError:
            pass
        finally:
            l.close()
        time.sleep(wait)
        try:
            txt = p.communicate(b"\n", timeout=60)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return bad("hang", "TCP source: the program did not exit after Enter", args)
        with lock:
            ctx.evaluations += 1
            ctx.sig(("tcp", data))
            ctx.stat("tcp_sources")
        if crashed(p.returncode, txt):
            return bad("crash", "TCP source: exit %s: %s" % (p.returncode, txt[-800:]), args, txt)
        e = ("failed", "exit %d" % p.returncode) if p.returncode else judge(None, out, want)
        if e and wait < 5:
            return tcp(i, wait * 5)
        return bad(e[0], "TCP source: " + e[1], args, txt) if e else None

    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(tcp, i) for i in range(n_tcp)] + [ex.submit(good, i) for i in range(n_ok)] + [ex.submit(wrong, i) for i in range(n_err)]
        for f in fs:
            f.result()
