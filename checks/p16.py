import json
import os
from vlib import htdump as H
from vlib.core import Builder

CORE = {"thread_id", "timestamp", "klass_id", "id", "label", "duration"}


def gen(r, initial=None):
    """A random stream and the entries it must become: list of (optional, name|None, ts, dur, tid, args)."""
    w = H.Writer(big=r.random() < 0.15)
    w.endianness()
    shift = r.choice([0, 0, 0, r.randrange(1, 50)])
    base, ci, cs, mp, si = H.core_klasses(shift=shift)
    if r.random() < 0.08:   # a mapping class that lacks what a mapping needs
        mp.own = r.choice([[], [H.Field("identifier", "uint", 8)], [H.Field("label", "string")], [H.Field("identifier", "string"), H.Field("label", "string")],
                           [H.Field("identifier", "uint", 8), H.Field("label", "uint", 8)], [H.Field("identifier", "uint", 4), H.Field("label", "string")]])
    ks = []
    for i in range(r.randrange(0, 6)):
        fields, names = [], set()
        parent = r.choice([None, base, ci, cs, None] + ks)
        taken = {f.name for f in parent.flat()} if parent else set()
        for nm, kind, size in (("label", r.choice(["uint", "string"]), 8), ("name", r.choice(["string", "string", "uint", "int"]), 8),
                               ("duration", "uint", r.choice([8, 4])), ("thread_id", "uint", r.choice([4, 4, 2]))):
            if r.random() < 0.35 and nm not in taken:
                fields.append(H.Field(nm, kind, size))
                taken.add(nm)
        for j in range(r.randrange(0, 5)):
            kind = r.choice(["uint", "int", "string"])
            nm = "f%d_%d" % (i, j) if r.random() < 0.9 else "f%d_%d\"\\%s" % (i, j, r.choice(H.NASTY))
            fields.append(H.Field(nm, kind, 8 if kind == "string" else r.choice([1, 2, 4, 8])))
        r.shuffle(fields)
        ks.append(H.Klass(20 + shift + i, "K%d" % i, fields, parent))
    mapped = r.random() < 0.9
    known = [base, ci, cs] + ([mp] if mapped else []) + [si]
    late = []
    for k in known + ks:
        if k is mp and r.random() < 0.1:
            late.append(k)
        else:
            w.klass(k)
    want, maps, ends = [], dict(initial or {}), []
    idpool = [r.getrandbits(64) for _ in range(6)] + [0, 1, 2**64 - 1] + 2 * list(initial or {})
    labels = [H.text(r) for _ in range(6)] + [b""]
    for _ in range(r.choice([0, 1, 3, 20, 60])):
        if late and r.random() < 0.2:
            w.klass(late.pop())
        avail = [k for k in known + ks if k not in late]
        k = mp if (mapped and mp not in late and r.random() < 0.25) else r.choice(avail)
        vals = {}
        for f in k.flat():
            if f.kind == "string":
                vals[f.name] = r.choice(labels) if r.random() < 0.7 else H.text(r)
            elif f.name in ("label", "identifier"):
                vals[f.name] = r.choice(idpool)
            else:
                vals[f.name] = H.boundary_int(r, f.kind, f.size)
        ts = r.choice([r.getrandbits(64), r.getrandbits(40), 999, 1000, 1999, 0])
        w.event(k, ts, r.getrandbits(64), vals)
        ends.append(len(w.out))
        if k.name == "HT_StringMappingEvent":
            if [(f.name, f.kind, f.size) for f in k.own] == [("identifier", "uint", 8), ("label", "string", 8)]:
                maps[vals["identifier"]] = vals["label"]
            want.append(None)
            continue
        kind = {f.name: f.kind for f in k.flat()}
        if "label" in vals:
            name = vals["label"] if kind["label"] == "string" else maps.get(vals["label"], str(vals["label"]).encode())
        elif kind.get("name") == "string":
            name = vals["name"]
        else:
            want.append(None)
            continue
        args = {n: v for n, v in vals.items() if n not in CORE}
        want.append((name == b"", name, ts // 1000, vals.get("duration", 0) // 1000, vals.get("thread_id", 0), args))
    data = bytes(w.out)
    if r.random() < 0.25 and ends:
        cut = r.choice([r.randrange(len(data)), r.choice(ends), r.choice(ends) - 1])
        data = data[:cut]
        want = [x for x, e in zip(want, ends) if e <= cut]
    return data, [x for x in want if x is not None]


def utf8(b):
    try:
        return b.decode()
    except UnicodeDecodeError:
        return None


def compare(doc, want):
    if not isinstance(doc, dict) or not isinstance(doc.get("traceEvents"), list):
        return "no-trace-events", "top level %r" % (doc,)
    got = doc["traceEvents"]
    gi = 0
    for n, (optional, name, ts, dur, tid, args) in enumerate(want):
        if gi >= len(got):
            if optional:
                continue
            return "entry-missing", "entry %d (%r) of %d, output has %d" % (n, name, len(want), len(got))
        g = got[gi]
        u = utf8(name)
        same = g.get("ph") == "X" and (u is None or g.get("name") == u) and g.get("ts") == ts and g.get("dur") == dur and g.get("tid") == tid
        if same:
            ga = g.get("args")
            exp = {k: (utf8(v) if isinstance(v, bytes) else v) for k, v in args.items()}
            if not isinstance(ga, dict) or set(ga) != set(exp) or any(e is not None and ga[k] != e for k, e in exp.items()):
                return "wrong-args", "entry %d: %r instead of %r" % (n, ga, exp)
            gi += 1
            continue
        if optional:
            continue
        return "wrong-entry", "entry %d: %r instead of name %r ts %d dur %d tid %d" % (n, {k: g.get(k) for k in ("name", "ts", "dur", "tid", "ph")}, name, ts, dur, tid)
    if gi != len(got):
        return "extra-entry", "%d entries, %d expected; first extra %r" % (len(got), len(want), got[gi])
    return None


def run(ctx):
    ctx.rule = ("random streams (string, mapped and unmapped labels, names, control and non-ASCII characters, integer boundary values, inherited fields, both byte orders, truncation) through the real reader and converter under ASan/UBSan; "
                "output parsed by an independent JSON parser and compared entry by entry; non-trivial: at least one entry; distinct by stream contents")
    ctx.assumptions += ["a label is a 64-bit identifier or a string field called label, or else a string field called name; entries with an empty label are optional",
                        "for text that is not valid UTF-8 only validity of the document and presence of the entry are required"]
    exe = Builder(ctx, "asan").program("conv", ["conv.cpp"], parts=("lib", "parser", "client"))
    per, procs = ctx.scale(900, 5000), 8
    jobs, cases = [], []
    for p in range(procs):
        d = os.path.join(ctx.tmp, "p%d" % p)
        os.makedirs(d)
        lines = []
        for i in range(per):
            data, want = gen(H.rng(ctx.seed, "p16", p, i))
            src, dst = os.path.join(d, "s%d" % i), os.path.join(d, "o%d" % i)
            with open(src, "wb") as f:
                f.write(data)
            lines.append("chrome\t%s\t%s\t" % (src, dst))
            cases.append((dst, want, data))
        jf = os.path.join(d, "jobs")
        with open(jf, "w") as f:
            f.write("\n".join(lines) + "\n")
        jobs.append(dict(exe=exe, args=["jobs=" + jf], timeout=ctx.scale(120, 900)))
    ctx.parallel(jobs)
    if ctx.violations:
        return
    for dst, want, data in cases:
        ctx.evaluations += 1
        try:
            with open(dst, "rb") as f:
                raw = f.read()
        except OSError:
            ctx.violation("no-output", dst)
            continue
        try:
            doc = json.loads(raw.decode("utf-8"))
        except (UnicodeDecodeError, ValueError) as e:
            ctx.violation("invalid-json", "%s in %r" % (e, raw[:300]), {"stream_hex": data.hex()[:4000]})
            continue
        bad = compare(doc, want)
        if bad:
            ctx.violation(bad[0], bad[1][:1500], {"stream_hex": data.hex()[:4000]})
        if want:
            ctx.sig(data)
            ctx.stat("entries", len(want))
            ctx.sample("%d bytes -> %d entries, first name %r" % (len(data), len(want), want[0][1][:40]))
