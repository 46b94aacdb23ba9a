import concurrent.futures as cf
import os
import re
import struct
import subprocess
import threading
from vlib import htdump as H
from vlib.core import Builder, REPO, SAN_ENV

TOOL = os.path.join(REPO, "tools", "generate_tracepoint_labels.py")
MAPTOOL = os.path.join(REPO, "tools", "generate_map_from_binary.sh")
C_EXT = [".c", ".cpp", ".h", ".hpp"]
NOT_C = [".txt", ".html", ".cpp.orig", ".h.in", ".cpp~", ".md", ".lua", ".py", "", ".cs", ".php", ".c.d"]
NOT_LUA = [".luac", ".lua.bak", ".txt", ".cpp", ".lua~", ""]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
C_KEYWORDS = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while".split())
LUA_KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())


def label(r):
    n = r.choice([1, 1, 2, 3, 8, 8, 20, 120])
    while True:
        s = r.choice(ALPHA) + "".join(r.choice(ALPHA + "0123456789") for _ in range(n - 1))
        if s not in LUA_KEYWORDS | C_KEYWORDS:
            return s


def c_line(r, l):
    return "%sHT_TP_GLOBAL_SCOPED_INT%s(%s)%s;%s" % (r.choice(["", " ", "    ", "\t", "\t  "]), r.choice(["", "", " ", "\t"]), l,
                                                     r.choice(["", "", " "]), r.choice(["", "", "  ", "\t"]))


def lua_line(r, l):
    return "%s--@TracepointStart%s%s%s" % (r.choice(["", "  ", "\t"]), r.choice([" ", "\t", "   "]), l, r.choice(["", " ", "\t"]))


def c_decoy(r, l):
    return r.choice(["// HT_TP_GLOBAL_SCOPED_INT(%s);", "  puts(\"HT_TP_GLOBAL_SCOPED_INT(%s);\");", "#define HT_TP_GLOBAL_SCOPED_INT(%s)", "HT_TP_GLOBAL_SCOPED_INT(1%s);",
                     "HT_TP_GLOBAL_SCOPED_INT(%s)", "HT_TP_GLOBAL_SCOPED_INT(\"%s\");", "HT_TP_GLOBAL_SCOPED_INTS(%s);", "MY_HT_TP_GLOBAL_SCOPED_INT(%s);", "HT_TP_SCOPED_INT(t, %s);",
                     "HT_TP_GLOBAL_SCOPED_STRING(%s);", "--@TracepointStart %s", "ht_tp_global_scoped_int(%s);", "HT_TP_GLOBAL_SCOPED_INT(%s-1);", "HT_TP_GLOBAL_SCOPED_INT %s;",
                     "HT_TP_GLOBAL_SCOPED_INT();  /* %s */", "HT_TP_GLOBAL_SCOPED_INT(%s, 2);"]) % l


def lua_decoy(r, l):
    return r.choice(["--@TracepointEnd %s", "-- @TracepointStart %s", "--@TracepointStart 1%s", "--@TracepointStart \"%s\"", "--@TracepointStart%s", "print('--@TracepointStart %s')",
                     "--@TracepointStart %s extra", "HT_TP_GLOBAL_SCOPED_INT(%s);", "--@tracepointstart %s", "--@TracepointStart -- %s"]) % l


def junk(r):
    return r.choice([b"", b"int x = 5;", b"    call(a, b);", b"}", b"\xff\xfe\x80 latin1 \xe9", "/* \u4e2d\u6587 */".encode(), b"\x00\x01\x02", b"x" * 3000, b"\t", b"(", b"\\"])


class Tree:
    """A random source tree and the labels an independent scan expects in it."""
    def __init__(self, r, root):
        self.r, self.root = r, root
        self.labels = {"cpp": set(), "lua": set()}
        pool = [label(r) for _ in range(r.choice([1, 3, 10, 40]))]
        pool = [l for i, l in enumerate(pool) if l not in pool[:i]]
        self.decoys = 0
        dirs = [""]
        for _ in range(r.randrange(6)):
            dirs.append(os.path.join(r.choice(dirs), r.choice(["src", "a b", "x.c", "lib.cpp.d", ".hidden", "l.lua", "d%d" % r.randrange(9)])))
        for d in dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for i in range(r.choice([0, 1, 4, 12])):
            self.file(os.path.join(r.choice(dirs), "f%d" % i + r.choice(["", ".x", "-1"])), pool)
        if r.random() < 0.2:
            os.symlink("nowhere@host.1234", os.path.join(root, r.choice(dirs), ".#lock" + r.choice(C_EXT + [".lua"])))
        if r.random() < 0.2:
            os.makedirs(os.path.join(root, r.choice(dirs), "directory" + r.choice(C_EXT + [".lua"])), exist_ok=True)

    def file(self, name, pool):
        r = self.r
        kind = r.choice(["c", "c", "c", "lua", "lua", "other"])
        ext = r.choice(C_EXT) if kind == "c" else ".lua" if kind == "lua" else r.choice(NOT_C + NOT_LUA)
        kind = "c" if ext in C_EXT else "lua" if ext == ".lua" else "other"
        lines = []
        for _ in range(r.choice([0, 1, 5, 30])):
            l, what = r.choice(pool), r.random()
            if what < 0.3:
                lines.append(c_line(r, l).encode())
                if kind == "c":
                    self.labels["cpp"].add(l)
            elif what < 0.5:
                lines.append(lua_line(r, l).encode())
                if kind == "lua":
                    self.labels["lua"].add(l)
            elif what < 0.75:
                lines.append((c_decoy if r.random() < 0.6 else lua_decoy)(r, label(r) if r.random() < 0.8 else l).encode())
                self.decoys += 1
            else:
                lines.append(junk(r))
        # a comment mentioning lua syntax is a real tracepoint only in lua files, and so on (handled above by kind)
        for x in lines:
            t = x.decode("utf-8", "replace").strip()
            m = re.fullmatch(r"--@TracepointStart\s+([A-Za-z_]\w*)", t, re.A)
            if kind == "lua" and m:
                self.labels["lua"].add(m.group(1))
            m = re.fullmatch(r"HT_TP_GLOBAL_SCOPED_INT\s*\(([A-Za-z_]\w*)\)\s*;", t, re.A)
            if kind == "c" and m:
                self.labels["cpp"].add(m.group(1))
        eol = r.choice([b"\n", b"\n", b"\r\n"])
        with open(os.path.join(self.root, name + ext), "wb") as f:
            f.write(eol.join(lines) + r.choice([b"", eol]))


def read_header(path):
    out = {}
    for l in open(path):
        m = re.match(r"\s*#\s*define\s+hawktracer_autogen_tracepoint_label_(\w+)\s+(\S+)\s*$", l)
        if m:
            out.setdefault(m.group(1), []).append(m.group(2))
    return out


def read_lua(path):
    """Names and values of 'local a,b = 1,2' (None if that is not what the file holds)."""
    s = "".join(l for l in open(path) if not l.lstrip().startswith("--")).strip()
    if not s:
        return {}
    out = {}
    for stmt in re.findall(r"local\s+[^=]*=[^=]*?(?=local\s|\Z)", s + "\n"):
        m = re.fullmatch(r"local\s+(\w+(?:\s*,\s*\w+)*)\s*=\s*(\d+(?:\s*,\s*\d+)*)\s*;?\s*", stmt)
        if not m:
            return None
        names, vals = re.split(r"\s*,\s*", m.group(1)), re.split(r"\s*,\s*", m.group(2))
        if len(names) != len(vals):
            return None
        for n, v in zip(names, vals):
            out.setdefault(n, []).append(v)
    return out or None


def elf_functions(path):
    """(address, name) of the functions of a 64 bit little endian ELF file, from its symbol tables."""
    d = open(path, "rb").read()
    shoff, = struct.unpack_from("<Q", d, 40)
    shentsize, shnum = struct.unpack_from("<HH", d, 58)
    sec = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * shentsize) for i in range(shnum)]
    res = {}
    for s in sec:
        if s[1] not in (2, 11):
            continue
        stroff = sec[s[6]][4]
        for o in range(s[4], s[4] + s[5], 24):
            name, info, _, shndx, value, _ = struct.unpack_from("<IBBHQQ", d, o)
            if info & 15 == 2 and value:
                e = d.index(b"\0", stroff + name)
                res.setdefault(value, set()).add(d[stroff + name:e].decode())
    return res


def norm(s):
    return re.sub(r"[\s_]", "", s)


def c_source(r):
    """A C++ program that prints the addresses of its functions, and their names."""
    fns, src = [], ["#include <cstdio>", "#include <cstdint>", "#include <utility>", "#include <map>", "#include <string>", "#define N __attribute__((noinline,used))"]
    for i in range(r.randrange(1, 12)):
        n = "%s%d" % ("".join(r.choice("abcdXYZ_") for _ in range(r.choice([1, 4, 30]))).lstrip("_") or "q", i)
        k = r.randrange(6)
        if k == 0:
            src.append("extern \"C\" N int %s(int a) { return a + %d; }" % (n, i)); fns.append((n, "(int(*)(int))" + n))
        elif k == 1:
            src.append("namespace ns { namespace in%d { N int %s(std::map<int, std::string>* a, unsigned long) { return a ? %d : 1; } } }" % (i, n, i))
            fns.append("ns::in%d::%s" % (i, n)); fns[-1] = (fns[-1], fns[-1])
        elif k == 2:
            src.append("static N int %s(const char* a) { return a[0] + %d; }" % (n, i)); fns.append((n, n))
        elif k == 3:
            src.append("template <class T, class U> N int %s(T, U b) { return (int) b + %d; }" % (n, i))
            fns.append((n + "<int,unsignedlong>", "(int(*)(int, unsigned long)) &%s<int, unsigned long>" % n))
        elif k == 4:
            src.append("struct %sS { static N int f(void* p) { return p ? %d : 0; } };" % (n, i)); fns.append((n + "S::f", "&%sS::f" % n))
        else:
            src.append("namespace { N int %s(std::pair<int, int> a) { return a.first + %d; } }" % (n, i)); fns.append((n, n))
    src.append("int main() {")
    for n, e in fns:
        src.append("  std::printf(\"%%llu %s\\n\", (unsigned long long) (uintptr_t) (void*) (%s));" % (n, e))
    src.append("}")
    return "\n".join(src) + "\n"


def run(ctx):
    ctx.rule = ("the label generator run on random source trees (C/C++/Lua/other files, decoy lines, repeated labels, any encoding, dangling links) and option sets; header, script and map compared with an independent scan, the header compiled, "
                "the map loaded by the client's loader (ASan/UBSan); the binary map generator run on compiled programs and resolved by the same loader at addresses the programs print; non-trivial: a tree with labels; distinct by tree")
    ctx.assumptions += ["a tracepoint is a line with nothing but the macro statement (or the Lua start comment); a language without an output file is not scanned",
                        "labels in a map generated from a binary may have whitespace replaced and may end at the parameter list"]
    b = Builder(ctx, "asan")
    exe = b.program("p24", ["p24_map.cpp"], parts=("lib", "parser", "client"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **SAN_ENV["asan"])
    lock = threading.Lock()

    def sh(args, cwd=None, stdin=None, timeout=120, e=env):
        p = subprocess.run(args, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    def resolve(maps, ids):
        rc, out, err = sh([exe, ",".join(maps)], stdin="\n".join(map(str, ids)).encode())
        if rc or not out.endswith("END\n"):
            return None, err[-1500:]
        res = {}
        for l in out.splitlines()[:-1]:
            i, c, n = l.split("\t", 2)
            res[int(i)] = (c, n)
        return res, err

    def bad(key, detail, i):
        with lock:
            ctx.violation(key, "seed=%d tree=%d %s" % (ctx.seed, i, detail), {"tree": i, "seed": ctx.seed, "detail": detail[:3000]})

    def labels_case(i):
        r = H.rng(ctx.seed, "p24", i)
        top = os.path.join(ctx.tmp, "t%d" % i, r.choice(["", "p.c", "a.lua"]))
        src, src2, out = os.path.join(top, "src"), os.path.join(top, "src2"), os.path.join(top, "o")
        for d in (src, src2, out):
            os.makedirs(d)
        cpp_t = Tree(r, src)
        lua_t = Tree(r, src2) if r.random() < 0.3 else cpp_t
        want_cpp, want_lua = r.random() < 0.9, r.random() < 0.8
        hdr, lua, mp = os.path.join(out, "labels.h"), os.path.join(out, "labels.l"), os.path.join(out, "map")
        args, cwd = ["/usr/bin/python3", "-B", TOOL, "--output-map", mp], top
        if want_cpp:
            args += ["--out-cpp-file", hdr]
        if want_lua:
            args += ["--out-lua-file", lua]
        if cpp_t is lua_t and r.random() < 0.4:
            cwd = src
        else:
            args += ["--search-cpp-dir", r.choice([src, os.path.relpath(src, cwd)]), "--search-lua-dir", lua_t.root]
        e = dict(env)
        if r.random() < 0.3:
            e.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        again = None
        for attempt in range(2 if r.random() < 0.2 else 1):
            rc, so, err = sh(args, cwd=cwd, e=e)
            if rc:
                return bad("generator-failed", "exit status %d: %s" % (rc, err.strip().splitlines()[-1:] or so[-200:]), i)
            made = [open(p).read() for p in (hdr, lua, mp) if os.path.exists(p)]
            if again is not None and sorted("".join(made).split()) != sorted("".join(again).split()):
                return bad("not-repeatable", "a second run on the same tree gave other files", i)
            again = made
        expected = {"cpp": cpp_t.labels["cpp"] if want_cpp else set(), "lua": lua_t.labels["lua"] if want_lua else set()}
        got = {}
        if want_cpp:
            got["cpp"] = read_header(hdr)
            with open(os.path.join(out, "t.c"), "w") as f:
                f.write('#include "labels.h"\n#include "labels.h"\n' + "".join('_Static_assert(hawktracer_autogen_tracepoint_label_%s == %s, "");\n' % (k, v[0]) for k, v in got["cpp"].items()) + "int x;\n")
            rc, _, err = sh(["gcc", "-Werror", "-fsyntax-only", os.path.join(out, "t.c")])
            if rc:
                return bad("header-does-not-compile", err[:500], i)
        if want_lua:
            got["lua"] = read_lua(lua)
            if got["lua"] is None:
                return bad("script-syntax", "not a list of local variables: %r" % open(lua).read()[:200], i)
        in_map = {"cpp": {}, "lua": {}}
        for l in open(mp):
            f = l.split()
            if len(f) != 3 or f[0] not in in_map or not f[2].isdigit():
                return bad("map-syntax", "line %r" % l, i)
            in_map[f[0]].setdefault(f[1], []).append(f[2])
        used = {}
        for lang, names in expected.items():
            for where, have in (("map", in_map[lang]), ("generated file", got.get(lang, {}))):
                missing, extra = sorted(names - set(have)), sorted(set(have) - names)
                if missing:
                    return bad("missing-label", "%s has no %s label %s" % (where, lang, missing[:3]), i)
                if extra:
                    return bad("extra-label", "%s has %s label %s that is in no tracepoint" % (where, lang, extra[:3]), i)
                for n, v in have.items():
                    if len(v) != 1:
                        return bad("several-numbers", "%s lists %s label %s as %s" % (where, lang, n, v), i)
            for n in names:
                v = in_map[lang][n][0]
                if got[lang][n][0] != v:
                    return bad("files-disagree", "%s label %s is %s in the map, %s in the generated file" % (lang, n, v, got[lang][n][0]), i)
                if v in used:
                    return bad("number-not-unique", "%s is both %s and %s %s" % (v, used[v], lang, n), i)
                used[v] = "%s %s" % (lang, n)
        res, err = resolve([mp], [int(v) for v in used])
        if res is None:
            return bad("loader-failed", err, i)
        for v, x in used.items():
            if " ".join(res[int(v)]) != x:
                return bad("client-resolves-wrong", "%s is %s, the client says %s" % (v, x, res[int(v)]), i)
        with lock:
            ctx.evaluations += 1
            ctx.stat("labels", len(used))
            ctx.stat("decoys", cpp_t.decoys)
            ctx.stat("trees_with_both_languages", 1 if expected["cpp"] and expected["lua"] else 0)
            if used:
                ctx.sig("tree:%s" % sorted(used.items()))

    def binary_case(i):
        r = H.rng(ctx.seed, "p24b", i)
        d = os.path.join(ctx.tmp, "b%d" % i, r.choice(["", "with space"]))
        os.makedirs(d)
        src, prog, mp = os.path.join(d, "p.cpp"), os.path.join(d, "prog"), os.path.join(d, "map")
        with open(src, "w") as f:
            f.write(c_source(r))
        pie = r.random() < 0.3
        cc = r.choice(["g++", "clang++"])
        rc, _, err = sh([cc, "-w", "-O1", "-pie" if pie else "-no-pie", "-fPIE" if pie else "-fno-pie", src, "-o", prog])
        if rc:
            raise RuntimeError("test program does not compile: " + err[:800])
        rc, said, err = sh([prog])
        minimum = r.choice([None, None, 1, 0x401000, 0x1000])
        rc, out, err = sh(["bash", MAPTOOL, "--binary=" + prog] + ([] if minimum is None else ["--min-address=%s" % r.choice(["%d", "0x%x"]) % minimum]) + r.choice([[], ["--readelf=/usr/bin/readelf"]]), cwd=d)
        if rc:
            return bad("map-generator-failed", err[-400:], i)
        open(mp, "w").write(out)
        fns = {a: n for a, n in elf_functions(prog).items() if a >= (minimum or 1)}
        low = [a for a in elf_functions(prog) if a < (minimum or 1)]
        names = sorted({x for n in fns.values() for x in n})
        dem = dict(zip(names, subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")))
        res, err = resolve([mp], list(fns) + low)
        if res is None:
            return bad("loader-failed", err, i)
        for a, n in fns.items():
            ok = False
            for x in n:
                full = dem[x]
                depth, stop = 0, len(full)
                for k, c in enumerate(full):                      # the parameter list starts at the last top level '('
                    if c == "(" and depth == 0 and not full.startswith("(anonymous", k) and k:
                        stop = k
                        break
                    depth += {"<": 1, ">": -1}.get(c, 0)
                lab = norm(res[a][1])
                ok = ok or (norm(full).startswith(lab) and len(lab) >= len(norm(full[:stop].split("@")[0]))) or lab == norm(x)
            if not ok:
                return bad("binary-map-wrong", "function %s at %d resolves to %s" % ([dem[x] for x in n], a, res[a]), i)
        for a in low:
            if res[a][1] != str(a):
                return bad("below-min-address", "%d is below the minimum %d but resolves to %s" % (a, minimum, res[a]), i)
        if not pie:
            for l in said.splitlines():
                a, n = l.split(" ", 1)
                if int(a) in fns and norm(n) not in norm(res[int(a)][1]):
                    return bad("binary-map-wrong", "function %s at %s resolves to %s" % (n, a, res[int(a)]), i)
        with lock:
            ctx.evaluations += 1
            ctx.stat("functions_resolved", len(fns))
            ctx.sig("bin:%d:%s" % (len(fns), said[:200]))

    jobs = [(lambda i=i: labels_case(i)) for i in range(ctx.scale(600, 6000))] + [(lambda i=i: binary_case(i)) for i in range(ctx.scale(24, 400))]
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
