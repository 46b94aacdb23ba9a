"""Runs one random traced Python program in the real interpreter (see checks/p22.py).

usage: p22_py.py SEED MODE OUTDIR;  writes OUTDIR/log.json: what was called, what was expected, where it was recorded."""
import ctypes
import functools
import gc
import json
import os
import random
import sys
import threading
import time

import hawktracer.core as ht

seed, mode, outdir = int(sys.argv[1]), sys.argv[2], sys.argv[3]
R = random.Random("%d-%s" % (seed, mode))
now = time.monotonic_ns
TASKS = len(os.listdir("/proc/self/task"))
log = {}          # thread -> [label, t0, t1, parent position or -1 (filled at completion)]
regs = []
viol = []
stats = {}
state = {"tracing": False, "init": False, "dec": False}
tls = threading.local()


def bad(key, detail):
    viol.append([key, str(detail)[:1500]])


def stat(k, n=1):
    stats[k] = stats.get(k, 0) + n


class Err(Exception):
    pass


class BaseErr(BaseException):
    pass


def text():
    k = R.random()
    if k < 0.35:
        return "".join(R.choice("abcXYZ_0") for _ in range(R.randrange(1, 9)))
    if k < 0.55:
        return R.choice("abcxyz")
    if k < 0.6:
        return ""
    if k < 0.8:
        return "".join(R.choice(["é", "日", "\U0001F600", '"', "\\", "\n", "\x7f", "%s", "<lambda>"]) for _ in range(R.randrange(1, 6)))
    if k < 0.85:
        return "".join(chr(R.choice([0xd800, 0xdcff, 0x41])) for _ in range(3))
    return "L" * R.choice([30, 200, 1000, 1030, 3000, 9000])


class Node:
    __slots__ = ("fn", "args", "kwargs", "children", "exc", "result", "act", "got")


class Fn:
    """A function in two versions: as the user calls it (maybe traced), with the label its calls must leave (None: no event)."""
    def __init__(self, kind=None, label=None):
        self.kind = kind or R.choice(["plain", "plain", "plain", "method", "static", "class", "lambda", "inst", "partial", "type", "builtin", "gen", "classobj"])
        self.name = text() if label is None else label
        k = self.kind

        def body(*a, **kw):
            return run_body(a, kw)

        def genbody(*a, **kw):
            yield run_body(a, kw)
        traced = state["dec"]
        name = self.name
        if k in ("plain", "partial", "static"):
            body.__name__ = name
        self.label = name
        if k == "plain":
            self.call = ht.trace(body)
            if not traced and self.call is not body:
                bad("disabled-decorator-wraps", repr(self.call))
        elif k == "lambda":
            self.call = ht.trace(lambda *a, **kw: run_body(a, kw))
            self.label = "<lambda>"
        elif k == "partial":
            self.call = ht.trace(functools.partial(body))
            self.label = "functools.partial"
        elif k == "static":
            class S:
                f = staticmethod(ht.trace(body))
            self.call = S().f if R.random() < 0.5 else S.f
        elif k == "method":
            class M:
                def f(this, *a, **kw):
                    if type(this) is not M:
                        bad("method-self", "self is %r" % (this,))
                    return run_body(a, kw)
                f.__name__ = name
                f = ht.trace(f)
            m = M()
            self.call = m.f if R.random() < 0.7 else functools.partial(M.f, m)
        elif k == "class":
            class C:
                def f(cls, *a, **kw):
                    if cls is not C:
                        bad("classmethod-cls", "cls is %r" % (cls,))
                    return run_body(a, kw)
                f.__name__ = name
                f = classmethod(ht.trace(f))
            self.call = C.f if R.random() < 0.5 else C().f
        elif k == "classobj":       # a classmethod object can not be called, so it is not traced - and works as without
            class D:
                @ht.trace
                @classmethod
                def f(cls, *a, **kw):
                    return run_body(a, kw)
            self.call = D.f
            self.label = None
        elif k == "inst":
            class CallableThing:
                def __call__(this, *a, **kw):
                    return run_body(a, kw)
            self.call = ht.trace(CallableThing())
            self.label = "CallableThing"
        elif k == "type":
            class MadeThing:
                def __new__(cls, *a, **kw):
                    return run_body(a, kw)
            MadeThing.__name__ = "MadeThing"
            self.call = ht.trace(MadeThing)
            self.label = "MadeThing"
        elif k == "builtin":
            self.call = ht.trace(max)
            self.label = "max"
        elif k == "gen":
            genbody.__name__ = name
            self.call = ht.trace(genbody)
        if not traced:
            self.label = None


def run_body(a, kw):
    node = tls.node
    node.got += 1
    if len(a) != len(node.args) or any(x is not y for x, y in zip(a, node.args)) or set(kw) != set(node.kwargs) or any(kw[x] is not node.kwargs[x] for x in kw):
        bad("arguments", "called with %r %r, received %r %r" % (node.args, node.kwargs, a, kw))
    for c in node.children:
        do(c)
    tls.node = node
    if node.exc is not None:
        raise node.exc
    return node.result


def register():
    path = os.path.join(outdir, "t%d.htdump" % len(regs))
    buf = R.choice([1, 10, 25, 32, 64, 300, 1000, 4096, 100000])
    pos = len(log.get(tls.tid, []))
    if R.random() < 0.5:
        ht.register_file_listener(path, buf)
    else:
        ht.register_file_listener(path)
    regs.append({"path": path, "thread": tls.tid, "pos": pos, "t": now(), "open": [list(x) for x in tls.stack]})
    stat("listeners_registered")


def register_bad():
    for args, exc in (((os.path.join(outdir, "no", "dir"),), Exception), ((5,), TypeError), ((os.path.join(outdir, "x"), "s"), TypeError), ((), TypeError)):
        try:
            ht.register_file_listener(*args)
            bad("bad-register-accepted", args)
        except exc:
            stat("bad_registrations")


def act(a):
    if a == "enable":
        ht.enable_tracing()
        state["tracing"] = True
    elif a == "disable":
        ht.disable_tracing()
        state["tracing"] = False
    elif a == "register":
        if state["init"]:
            register()
        else:
            try:
                ht.register_file_listener(os.path.join(outdir, "never"))
                bad("register-before-init", "accepted")
            except Exception:
                stat("refused_before_init")
    elif a == "badregister":
        if state["init"]:
            register_bad()
    elif a == "init":
        ht.init()
        state["init"] = True
    elif a == "gc":
        gc.collect()
    elif a == "yield":
        time.sleep(0)


def do(node):
    if node.act:
        act(node.act)
        return
    fn = node.fn
    label = fn.label if (fn.label is not None and state["tracing"] and state["init"]) else None
    outer = getattr(tls, "node", None)
    tls.node = node
    node.got = 0
    entries = log.setdefault(tls.tid, [])
    t0 = now()
    rec = [label, t0, 0, []]
    if label is not None:
        tls.stack.append(rec[:2])
    kids, tls.kids = tls.kids, []
    caught = r = None
    try:
        if fn.kind == "builtin":
            r = fn.call(*node.args, **node.kwargs) if node.args else fn.call([1, 7, 3], **{"key": lambda x: -x})
        else:
            r = fn.call(*node.args, **node.kwargs)
    except BaseException as e:
        caught = e
    t1 = now()
    mine, tls.kids = tls.kids, kids
    if label is not None:
        tls.stack.pop()
        rec[0], rec[2], rec[3] = label.encode("utf-8", "backslashreplace").hex(), t1, mine
        entries.append(rec)
        tls.kids.append(len(entries) - 1)
    else:
        tls.kids.extend(mine)
    stat("calls")
    if fn.kind == "gen":
        if caught is not None:
            bad("generator-raised", repr(caught))
        else:
            tls.node = node
            try:
                vals = list(r)
                if len(vals) != 1 or vals[0] is not node.result or node.exc is not None:
                    bad("result", "generator gave %r" % (vals,))
            except BaseException as e:
                if e is not node.exc:
                    bad("exception", "%r instead of %r" % (e, node.exc))
    elif fn.kind == "builtin":
        try:
            want = max(*node.args, **node.kwargs) if node.args else 1
            if caught is not None or r != want:
                bad("result", "%r %r instead of %r" % (r, caught, want))
        except BaseException as e:
            if type(e) is not type(caught) or str(e) != str(caught):
                bad("exception", "%r instead of %r" % (caught, e))
    else:
        if node.got != 1:
            bad("calls", "%s called %d times (%r)" % (fn.kind, node.got, caught))
        if caught is not node.exc:
            bad("exception", "%s: %r instead of %r" % (fn.kind, caught, node.exc))
        elif caught is None and r is not node.result:
            bad("result", "%s: %r instead of %r" % (fn.kind, r, node.result))
    if caught is not None:
        stat("exceptions_passed")
    tls.node = outer


def plan(fns, depth, acts):
    n = Node()
    n.act = None
    if acts and R.random() < 0.15:
        n.act = R.choice(acts)
        return n
    n.fn = R.choice(fns)
    n.got = 0
    if n.fn.kind == "builtin":
        n.args, n.kwargs = R.choice([((), {}), ((1, 2), {}), ((1, "a"), {}), ((3, 4), {"key": lambda x: -x})])
    else:
        n.args = tuple(R.choice([object(), 5, "s", None, [1], Err]) for _ in range(R.choice([0, 0, 1, 2, 7])))
        n.kwargs = {R.choice(["a", "key", "self_", "é"]): object() for _ in range(R.choice([0, 0, 1, 3]))}
    n.exc = R.choice([Err("x"), BaseErr(1), KeyboardInterrupt(), KeyError("k"), GeneratorExit(), SystemExit(4)]) if R.random() < 0.2 else None
    if n.fn.kind == "gen" and n.exc is not None:
        n.exc = Err("g")
    n.result = object()
    n.children = [] if depth <= 0 or n.fn.kind == "builtin" else [plan(fns, depth - 1, acts) for _ in range(R.choice([0, 1, 1, 2, 3]))]
    return n


def start(tid):
    tls.tid, tls.stack, tls.kids, tls.node = tid, [], [], None
    log.setdefault(tid, [])


def set_up():
    for a in R.choice([["init", "dec", "enable"], ["dec", "enable", "init"], ["enable", "init", "dec"]]):
        if a == "dec":
            ht.enable_trace_decorator()
            state["dec"] = True
        else:
            act(a)


def functions(n):
    out = []
    for _ in range(n):
        toggle = mode == "single" and R.random() < 0.2
        if toggle:
            ht.disable_trace_decorator()
            state["dec"] = False
        out.append(Fn())
        if toggle:
            ht.enable_trace_decorator()
            state["dec"] = True
    return out


def wait_threads():
    for _ in range(2000):
        if len(os.listdir("/proc/self/task")) <= TASKS:
            return
        time.sleep(0.005)


def single():
    start(0)
    if R.random() < 0.3:       # calls before anything is initialised
        fns = [Fn("plain")]
        ht.enable_trace_decorator()
        state["dec"] = True
        act("enable")
        fns += [Fn() for _ in range(3)]
        for _ in range(5):
            do(plan(fns, 2, ["register", "gc"]))
    set_up()
    if R.random() < 0.7:
        act("register")
    fns = functions(R.randrange(2, 9))
    acts = ["enable", "enable", "disable", "register", "badregister", "gc", "init"]
    for _ in range(R.choice([1, 5, 40])):
        do(plan(fns, R.randrange(0, 6), acts if R.random() < 0.5 else ["enable"]))
    if R.random() < 0.3:
        depth = R.choice([50, 150])
        tail = None
        f = R.choice([x for x in fns if x.kind != "builtin" and x.kind != "gen"] or [Fn("plain")])
        for _ in range(depth):
            n = Node()
            n.act, n.fn, n.args, n.kwargs, n.exc, n.result, n.got = None, f, (), {}, None, object(), 0
            n.children = [tail] if tail else []
            tail = n
        do(tail)


def multi():
    start(0)
    set_up()
    if R.random() < 0.7:
        act("register")
    sys.setswitchinterval(R.choice([1e-6, 1e-5, 1e-4]))
    fns = functions(R.randrange(3, 10))
    nt = R.randrange(1, 7)
    work = []
    for k in range(1, nt + 1):
        root = Node()
        root.act, root.fn, root.args, root.kwargs, root.exc, root.result, root.got = None, Fn("plain", "root_%d" % k), (), {}, None, object(), 0
        root.children = [plan(fns, 3, ["yield"]) for _ in range(R.choice([1, 10, 60]))]
        work.append((k, root))

    def main(k, root):
        start(k)
        do(root)
    ths = [threading.Thread(target=main, args=w) for w in work]
    for t in ths:
        t.start()
    for _ in range(R.randrange(0, 20)):
        do(plan(fns, 2, ["yield", "register"]))
    for t in ths:
        t.join()
    wait_threads()


def env():
    """Tracing controlled by HT_PYTHON_TRACE_ENABLED."""
    start(0)
    on = os.environ.get("HT_PYTHON_TRACE_ENABLED", "0") != "0"
    state["dec"] = state["tracing"] = state["init"] = on
    fns = [Fn() for _ in range(4)]
    if on:
        act("register")
    for _ in range(20):
        do(plan(fns, 3, ["gc"]))


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    gc.collect()
    return f()


def leak():
    start(0)
    set_up()
    ht.register_file_listener(os.path.join(outdir, "leak.htdump"), 64)
    arg, res, exc = object(), object(), Err("e")

    def f(a, b=None):
        return res

    def g(a, b=None):
        raise exc

    class K:
        def m(self, a, b=None):
            return res
        tm = ht.trace(m)
    tf, tg, k = ht.trace(f), ht.trace(g), K()
    part = ht.trace(functools.partial(f))

    def loop(n, f, g, m, p, wrap):
        for _ in range(n):
            f(arg)
            f(arg, b=arg)
            m(arg, b=None)
            p(arg)
            try:
                g(arg)
            except Err:
                pass
            exc.__traceback__ = None
            if wrap:
                ht.trace(f)(arg)
    refs = lambda: [sys.getrefcount(x) for x in (arg, res, exc, f, g, tf, tg, k)]
    loop(200, tf, tg, k.tm, part, True)
    grown = []
    for _ in range(4):      # the interpreter's own one-off growth shows in one round, a leak in all of them
        r0, a0 = refs(), allocated()
        loop(1000, tf, tg, k.tm, part, True)
        a1, r1 = allocated(), refs()
        if r0 != r1:
            bad("refcount", "%s became %s" % (r0, r1))
        grown.append(a1 - a0)
    if min(grown[1:]) > 4000:
        bad("leak", "rounds of 1000 times 6 traced calls left %s more bytes allocated" % grown)
    stat("leak_calls", 4000 * 6)


def misc():
    start(0)
    ht.enable_tracing()
    ht.enable_trace_decorator()

    @ht.trace
    def f(x):
        return x
    if f(3) != 3:
        bad("result", "before init")
    for bad_args in ((), (1, 2)):
        try:
            ht.trace(*bad_args)
            bad("trace-arguments", bad_args)
        except TypeError:
            stat("bad_trace_arguments")
    for x in (5, None, "s", property(lambda s: 1)):
        if ht.trace(x) is not x and not callable(x):
            bad("non-callable", repr(x))
    ht.init()
    state["init"] = state["tracing"] = state["dec"] = True
    old = sys.setrecursionlimit(400)

    @ht.trace
    def inf(n):
        return inf(n + 1)
    try:
        inf(0)
        bad("recursion", "no RecursionError")
    except RecursionError:
        stat("recursion_errors")
    act("register")
    pos = regs[-1]
    do(plan([Fn("plain")], 1, None))
    # forgetting the module and importing it again must not disturb what is being recorded
    import importlib
    global ht2
    sys.modules.pop("hawktracer.core")
    gc.collect()
    ht2 = importlib.import_module("hawktracer.core")
    gc.collect()
    do(plan([Fn("plain")], 1, None))
    g = ht2.trace(f)
    if g(4) != 4:
        bad("result", "after re-import")
    e = log[0]
    # g leaves two events (wrapper of a wrapper); recorded without brackets
    stats["extra_tail"] = 2


{"single": single, "multi": multi, "env": env, "leak": leak, "misc": misc}[mode]()
exit_kind = R.choice(["normal", "sysexit", "exception", "thread-exit"]) if mode in ("single", "multi") else "normal"
with open(os.path.join(outdir, "log.json"), "w") as f:
    json.dump({"log": log, "regs": regs, "viol": viol, "stats": stats, "exit": exit_kind}, f)
print("HV-DONE", flush=True)
if exit_kind == "sysexit":
    sys.exit(3)
if exit_kind == "exception":
    raise Err("unhandled on purpose")
