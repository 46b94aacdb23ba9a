import os
import random
from vlib.core import Builder

INTS = [("int8_t", 1, 1), ("uint8_t", 1, 0), ("int16_t", 2, 1), ("uint16_t", 2, 0), ("int32_t", 4, 1), ("uint32_t", 4, 0),
        ("int64_t", 8, 1), ("uint64_t", 8, 0), ("HT_TimestampNs", 8, 0), ("HT_ThreadId", 4, 0), ("HT_EventKlassId", 4, 0)]


def generate(rng, n, d):
    """Random event classes declared with the library's macros, plus fill/describe code."""
    bases = [("HT_Event", 0, []), ("HT_CallstackBaseEvent", 1, ["duration", "thread_id"])]
    classes, h, fill, tab = [], [], [], []
    for i in range(n):
        pool = bases + [(c["name"], c["depth"], c["names"]) for c in classes if c["depth"] < 8]
        base = rng.choice(pool[-6:]) if rng.random() < 0.5 else rng.choice(pool)
        name = "Gen%d_%s" % (i, "".join(rng.choice("abXY9_") for _ in range(rng.randint(0, 20))))
        shadow = rng.random() < 0.15
        k = rng.choice([1, 1, 2, 3, 4, 5, 8, 12, 17])
        fields, used = [], set()
        for j in range(k):
            if shadow and base[2] and rng.random() < 0.5:
                fn = rng.choice(base[2])
                if fn in used:
                    continue
            else:
                fn = "f%d_%d%s" % (i, j, rng.choice(["", "_x", "Long_field_name_%d" % j]))
            used.add(fn)
            if rng.random() < 0.3:
                fields.append(("STRING", rng.choice(["const char*", "char*"]), fn, 0, 0))
            else:
                t, sz, sg = rng.choice(INTS)
                fields.append(("INTEGER", t, fn, sz, sg))
        clash = any(f[2] in base[2] for f in fields)
        inherits_clash = next((c["clash"] for c in classes if c["name"] == base[0]), False)
        classes.append(dict(name=name, base=base[0], depth=base[1] + 1, fields=fields, names=base[2] + [f[2] for f in fields],
                            clash=clash or inherits_clash))
        h.append("HT_DECLARE_EVENT_KLASS(%s, %s, %s)" % (name, base[0], ", ".join("(%s, %s, %s)" % f[:3] for f in fields)))
        body = []
        if base[0] == "HT_CallstackBaseEvent":
            body.append("  { HT_CallstackBaseEvent* b = &e->base; g.num(b->duration, \"duration\", \"HT_DurationNs\", v); g.num(b->thread_id, \"thread_id\", \"HT_ThreadId\", v); }")
            body = ["  { std::vector<DVal> w; HT_CallstackBaseEvent* b = &e->base; g.base(w); g.num(b->duration, \"duration\", \"HT_DurationNs\", w); g.num(b->thread_id, \"thread_id\", \"HT_ThreadId\", w); g.sub(\"HT_CallstackBaseEvent\", w, v); }"]
        elif base[0] != "HT_Event":
            body.append("  { std::vector<DVal> w; fill_%s(&e->base, g, w); g.sub(\"%s\", w, v); }" % (base[0], base[0]))
        else:
            body.append("  g.base(v);")
        for f in fields:
            if f[0] == "STRING":
                body.append("  e->%s = (char*)g.str(\"%s\", \"%s\", v);" % (f[2], f[2], f[1]))
            else:
                body.append("  g.num(e->%s, \"%s\", \"%s\", v);" % (f[2], f[2], f[1]))
        fill.append("static void fill_%s(%s* e, Gen& g, std::vector<DVal>& v) {\n%s\n}" % (name, name, "\n".join(body)))
        tab.append("  { \"%s\", \"%s\", sizeof(%s), %d, %d, []() { return HT_REGISTER_EVENT_KLASS(%s); }, []() { return HT_EVENT_KLASS_GET(%s); }, [](void* m, Gen& g, std::vector<DVal>& v) { fill_%s((%s*)m, g, v); } }," %
                   (name, base[0], name, len(fields), 1 if classes[-1]["clash"] else 0, name, name, name, name))
    with open(os.path.join(d, "gen.h"), "w") as f:
        f.write("#pragma once\n#include <hawktracer/core_events.h>\nHT_DECLS_BEGIN\n%s\nHT_DECLS_END\n" % "\n".join(h))
    with open(os.path.join(d, "gen.c"), "w") as f:
        f.write("#include <hawktracer/core_events.h>\n#include <hawktracer/event_macros_impl.h>\n#include \"gen.h\"\n")
    with open(os.path.join(d, "gen_fill.inc"), "w") as f:
        f.write("%s\nstatic const GenKlass g_klasses[] = {\n%s\n};\n" % ("\n".join(fill), "\n".join(tab)))
    return classes


def run(ctx):
    ctx.rule = ("generated event classes (integer fields of all widths and signs, strings, inheritance up to 9 deep) with random values, written by the library "
                "through a timeline and read back by the parser flat and nested; non-trivial: stream with at least 3 distinct classes; distinct by serialised bytes")
    ctx.assumptions.append("field names are unique along an inheritance chain when the flattened form is compared (clashing names are compared in nested form only)")
    b = Builder(ctx, "asan")
    jobs = []
    sets = ctx.scale(2, 8)
    for s in range(sets):
        d = os.path.join(ctx.tmp, "gen%d" % s)
        os.makedirs(d)
        cl = generate(random.Random(ctx.seed * 131 + s), 48, d)
        ctx.stat("classes_generated", len(cl))
        ctx.stat("max_depth_sum", max(c["depth"] for c in cl))
        blob = b"".join(open(os.path.join(d, x), "rb").read() for x in ("gen.h", "gen.c", "gen_fill.inc"))
        objs = b.compile([os.path.join(d, "gen.c")], own=True, extra=["-I" + d], text_deps=blob)
        from vlib import core
        objs += b.compile([os.path.join(core.HARNESS, "p03.cpp")], own=True, extra=["-I" + d], text_deps=blob)
        objs += b.compile([os.path.join(core.HARNESS, "perturb.cpp")], own=True)
        objs += b.compile(core.lib_sources() + core.parser_sources())
        exe = b.link("p03_%d" % s, objs)
        jobs += [dict(exe=exe, args=["seed=%d" % (ctx.seed * 1000 + s * 100 + i), "cases=%d" % ctx.scale(60, 1200)], timeout=300) for i in range(8 // min(sets, 2))]
    ctx.parallel(jobs)
