import os
import re
from collections import defaultdict
from vlib import htdump as H
from vlib.core import Builder


class Node:
    __slots__ = ("label", "start", "stop", "kids", "id", "up")

    def __init__(self, label, start, stop, up):
        self.label, self.start, self.stop, self.kids, self.up = label, start, stop, [], up


def forest(r, labels):
    """Properly nested scopes of one thread, with many coinciding starts and stops."""
    span = r.choice([10, 50, 1000, 10 ** 6, 10 ** 12])
    t0 = r.choice([0, 5, r.getrandbits(50)])
    total, maxdepth, stretch = r.choice([1, 2, 5, 15, 40]), r.choice([1, 2, 4, 8, 30]), r.random() < 0.5
    out = []

    def cut(lo, hi, n):
        c = sorted(r.choice([r.randint(lo, hi), lo, hi]) if stretch else r.randint(lo, hi) for _ in range(2 * n))
        return [(c[2 * i], c[2 * i + 1]) for i in range(n)]

    def grow(lo, hi, depth, up):
        for a, b in cut(lo, hi, r.choice([1, 1, 2, 3])):
            if len(out) >= total:
                return
            if r.random() < 0.15:
                a, b = lo, hi   # exactly the parent's interval
                if any(not (x.stop <= a or b <= x.start) for x in (up.kids if up else out)):
                    continue
            n = Node(r.choice(labels), a, b, up)
            out.append(n)
            if up:
                up.kids.append(n)
            if depth < maxdepth and r.random() < 0.8:
                grow(a, b, depth + 1, n)
    lo = t0
    while len(out) < total:
        before = len(out)
        grow(lo, lo + span, 1, None)
        lo += span + 1
        if before == len(out):
            break
    return out


def ancestors(n):
    s = set()
    while n.up:
        n = n.up
        s.add(id(n))
    return s


def unambiguous(nodes):
    """Times and ids alone say who called whom: outside its callers, a scope shares no instant with one that contains it."""
    for x in nodes:
        anc = ancestors(x)
        for y in nodes:
            if y is not x and id(y) not in anc and y.start <= x.start and x.stop <= y.stop and not (x.start == y.start and x.stop == y.stop and id(x) in ancestors(y)):
                return False
    return True


def path(n):
    p = []
    while n:
        p.append(n.label + "()")
        n = n.up
    return "'".join(p)


def gen(r, initial=None):
    w = H.Writer(big=r.random() < 0.1)
    w.endianness()
    base, ci, cs, mp, si = H.core_klasses(shift=r.choice([0, 0, 9]))
    for k in (base, ci, cs, mp, si):
        w.klass(k)
    pool = ["f%d" % i for i in range(r.choice([1, 2, 3, 8]))] + r.choice([[], ["a b", "ns::f<int>(x)", "é"]])
    ids = {}
    for l in pool:
        ids[l] = r.getrandbits(64)
        if initial is not None and not re.search(r"\s", l) and r.random() < 0.7:   # resolved by a map file
            initial[ids[l]] = l.encode()
            continue
        if r.random() < 0.85:
            w.event(mp, 1, 0, {"identifier": ids[l], "label": l.encode()})
        else:
            ids[l] = None
    threads = {}
    for t in {r.choice([0, 1, 2, 7, 4096, 2 ** 32 - 1, r.getrandbits(32)]) for _ in range(r.choice([1, 1, 2, 4]))}:
        for _ in range(50):
            nodes = forest(r, pool)
            if unambiguous(nodes):
                threads[t] = nodes
                break
    seq = r.getrandbits(20)
    evs = []
    for t, nodes in threads.items():
        def walk(n):   # ids are handed out when a scope starts
            nonlocal seq
            seq += r.choice([1, 1, 3])
            n.id = seq
            for k in n.kids:
                walk(k)
        for n in nodes:
            if not n.up:
                walk(n)
        order = r.choice(["stop", "start", "random"])
        if order == "stop":
            post = []

            def visit(n):
                for k in n.kids:
                    visit(k)
                post.append(n)
            for n in nodes:
                if not n.up:
                    visit(n)
        elif order == "start":
            post = sorted(nodes, key=lambda n: n.id)
        else:
            post = list(nodes)
            r.shuffle(post)
        evs.append([(t, n) for n in post])
    while any(evs):
        q = r.choice([e for e in evs if e])
        t, n = q.pop(0)
        vals = {"duration": n.stop - n.start, "thread_id": t}
        if ids[n.label] is not None and r.random() < 0.6:
            w.event(ci, n.start, n.id, dict(vals, label=ids[n.label]))
        else:
            w.event(cs, n.start, n.id, dict(vals, label=n.label.encode()))
    return bytes(w.out), threads


def parse(text):
    """Callgrind profile -> self time per function, calls and inclusive time per (caller, callee)."""
    self_, calls, incl = defaultdict(int), defaultdict(int), defaultdict(int)
    thread, events, fn, callee, seen = None, None, None, None, []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l.strip() or l.startswith("#"):
            continue
        m = re.match(r"^(thread|events):\s*(.*)$", l)
        if m:
            if m.group(1) == "thread":
                thread = int(m.group(2))
            else:
                events = m.group(2).split()
        elif l.startswith("fn="):
            fn, callee = l[3:], None
            seen.append(fn)
        elif l.startswith("cfn="):
            callee = l[4:]
        elif l.startswith("calls="):
            n = int(l[6:].split()[0])
            calls[fn, callee] += n
            incl[fn, callee] += int(lines[i].split()[1])
            i += 1
        elif re.match(r"^\d+ \d+$", l):
            self_[fn] += int(l.split()[1])
        else:
            raise ValueError("line %r" % l[:80])
    return thread, events, self_, calls, incl, seen


def judge(base, threads):
    for t, nodes in threads.items():
        try:
            with open("%s.%d" % (base, t), encoding="utf-8") as f:
                text = f.read()
        except OSError:
            return "no-profile", "thread %d" % t
        try:
            thread, events, self_, calls, incl, seen = parse(text)
        except (ValueError, IndexError) as e:
            return "malformed", "thread %d: %r" % (t, e)
        if thread != t or not events or len(events) != 1:
            return "wrong-header", "thread %r events %r in the profile of %d" % (thread, events, t)
        if not text.startswith("# callgrind format"):
            return "wrong-header", text[:40]
        want_self, want_calls, want_incl = defaultdict(int), defaultdict(int), defaultdict(int)
        for n in nodes:
            want_self[path(n)] += n.stop - n.start - sum(k.stop - k.start for k in n.kids)
            if n.up:
                want_calls[path(n.up), path(n)] += 1
                want_incl[path(n.up), path(n)] += n.stop - n.start
        for what, g, e in (("self-time", self_, want_self), ("calls", calls, want_calls), ("inclusive-time", incl, want_incl)):
            if dict(g) != dict(e):
                d = [(k, g.get(k), e.get(k)) for k in list(e) + list(g) if g.get(k) != e.get(k)]
                return "wrong-" + what, "thread %d, %s: (where, got, expected) %r" % (t, what, d[:3])
    have = {f for f in os.listdir(os.path.dirname(base)) if f.startswith(os.path.basename(base) + ".")}
    extra = have - {"%s.%d" % (os.path.basename(base), t) for t in threads}
    if extra:
        return "extra-profile", repr(sorted(extra)[:3])
    return None


def run(ctx):
    ctx.rule = ("random forests of nested scopes (recursion, repeated labels, coinciding starts and stops, identical intervals, zero durations), several threads, arrival in stop, start or random order, through the real reader and converter; "
                "the profile re-parsed and compared with the reference tree; non-trivial: at least one call edge; distinct by stream")
    ctx.assumptions += ["labels are single-line text without a quote; scopes whose caller cannot be told from times and ids (an empty scope on the edge of a neighbour) are left out",
                        "event ids of one thread increase in the order scopes start, as the library assigns them"]
    exe = Builder(ctx, "asan").program("conv", ["conv.cpp"], parts=("lib", "parser", "client"))
    per, procs = ctx.scale(900, 6000), 8
    jobs, cases = [], []
    for p in range(procs):
        d = os.path.join(ctx.tmp, "p%d" % p)
        os.makedirs(d)
        lines = []
        for i in range(per):
            data, threads = gen(H.rng(ctx.seed, "p17", p, i))
            os.makedirs(os.path.join(d, "o%d" % i))
            src, dst = os.path.join(d, "s%d" % i), os.path.join(d, "o%d" % i, "out")
            with open(src, "wb") as f:
                f.write(data)
            lines.append("callgrind\t%s\t%s\t" % (src, dst))
            cases.append((dst, threads, data))
        jf = os.path.join(d, "jobs")
        with open(jf, "w") as f:
            f.write("\n".join(lines) + "\n")
        jobs.append(dict(exe=exe, args=["jobs=" + jf], timeout=ctx.scale(120, 900)))
    ctx.parallel(jobs)
    if ctx.violations:
        return
    for dst, threads, data in cases:
        ctx.evaluations += 1
        bad = judge(dst, threads)
        if bad:
            ctx.violation(bad[0], bad[1][:1500], {"stream_hex": data.hex()[:4000]})
        nodes = [n for ns in threads.values() for n in ns]
        if any(n.up for n in nodes):
            ctx.sig(data)
            ctx.stat("scopes", len(nodes))
            ctx.stat("threads", len(threads))
            ctx.stat("tied_starts", sum(1 for n in nodes if n.up and n.up.start == n.start))
            ctx.sample("%d scopes on %d threads, depth %d" % (len(nodes), len(threads), max(len(ancestors(n)) for n in nodes) + 1))
