"""Builds of the library in its other supported configurations."""
import hashlib
import os
import random
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import Builder, CheckError, REPO, HARNESS

C_PARTS = {"event_id_provider.cpp", "global_timeline.cpp", "monotonic_clock.cpp", "mutex.cpp"}   # FORCE_C_COMPILATION
NO_T = dict(threads=False, tcp=False, pthreads=False)

# name -> configuration, amalgamated?, language of the C++ parts, language of the user's program
FLAVOURS = {
    "regular": dict(),
    "amalgamated-c": dict(amal="c"),
    "amalgamated-cpp": dict(amal="c++"),
    "c-parts": dict(c_parts=C_PARTS),
    "c-only": dict(c_parts=C_PARTS | {"tcp_server.cpp"}),
    "posix-primitives": dict(config=dict(extra=("HT_MUTEX_IMPL_POSIX", "HT_THREAD_IMPL_POSIX"))),
    "no-tcp": dict(config=dict(tcp=False)),
    "no-threads": dict(config=NO_T),
    "no-threads-c": dict(config=NO_T, c_parts=C_PARTS),
    "no-threads-amalgamated-c": dict(config=NO_T, amal="c"),
    "no-threads-amalgamated-cpp": dict(config=NO_T, amal="c++"),
}
THREADED = [n for n in FLAVOURS if not n.startswith("no-threads")]
SINGLE = [n for n in FLAVOURS if n.startswith("no-threads")]

SCANDIR = r'''
import os, sys, random, runpy
seed = sys.argv[1]; real = os.scandir
def scandir(p):
    l = sorted(real(p), key=lambda e: e.name)
    random.Random(seed + os.path.basename(str(p))).shuffle(l)
    return l
os.scandir = scandir
sys.argv = sys.argv[2:]
runpy.run_path(sys.argv[0], run_name='__main__')
'''


AMALGAMATE_LOCK = threading.Lock()


class FlavourError(Exception):
    """The flavour does not build."""


class FlavourBuilder(Builder):
    def __init__(self, ctx, name, san="asan", alloc_hooks=False, **kw):
        self.name = name
        self.fl = FLAVOURS[name]
        cfg = dict(self.fl.get("config", {}))
        if not alloc_hooks:
            cfg["alloc_hooks"] = False
        self.hooks = alloc_hooks
        super().__init__(ctx, san, config=cfg, **kw)

    def amalgamate(self, order=None):
        """Runs the amalgamation tool; `order` makes the file system list its files in another (seeded) order."""
        with AMALGAMATE_LOCK:
            return self._amalgamate(order)

    def _amalgamate(self, order):
        lang = self.fl["amal"]
        d = os.path.join(self.ctx.tmp, "amal-%s-%s-%d" % (lang.replace("+", "p"), hashlib.sha256(self.cfg_text).hexdigest()[:8], -1 if order is None else order))
        src = os.path.join(d, "hawktracer." + ("c" if lang == "c" else "cpp"))
        if not os.path.exists(src):
            args = [os.path.join(REPO, "tools/amalgamate.py"), "--root-dir", REPO, "--out-dir", d, "--config-path", os.path.join(self.cfg_dir, "hawktracer", "ht_config.h")]
            if lang == "c++":
                args.append("--cpp")
            py = [sys.executable, "-B", "-W", "ignore"]
            cmd = py + (args if order is None else ["-c", SCANDIR, str(order)] + args)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.ctx.tmp)
            if r.returncode or not os.path.exists(src):
                raise FlavourError("amalgamation failed: %s" % r.stdout.decode(errors="replace")[-1500:])
        return d, src

    def sources(self):
        cfg = self.fl.get("config", {})
        out = []
        for s in core.lib_sources(alloc_hooks=self.hooks):
            b = os.path.basename(s)
            if b.startswith("tcp_") and cfg.get("tcp") is False or b.startswith("posix_mapped") and cfg.get("pthreads") is False:
                continue
            out.append(s)
        return out

    def lib_objects(self, order=None):
        try:
            if "amal" in self.fl:
                d, src = self.amalgamate(order)
                return self.compile([src], False, None, ["-I" + d])
            srcs = self.sources()
            c = self.fl.get("c_parts", set())
            objs = self.compile([s for s in srcs if os.path.basename(s) not in c])
            if c:
                objs += self.compile([s for s in srcs if os.path.basename(s) in c], False, "c")
            return objs
        except CheckError as e:
            raise FlavourError(str(e))

    def harness_program(self, name, harness, objs_cache):
        """An existing harness (which sees the ordinary headers) linked with this flavour of the library."""
        own = [os.path.join(HARNESS, h) for h in harness] + [os.path.join(HARNESS, "perturb.cpp")]
        key = (tuple(own), self.san, self.cc, tuple(self.defs), self.cfg_text)
        if key not in objs_cache:
            objs_cache[key] = self.compile(own, own=True)
        objs = objs_cache[key] + self.lib_objects()
        try:
            return self.link("%s-%s-%s-%s" % (name, self.name, self.san, self.cc), objs)
        except CheckError as e:
            raise FlavourError(str(e))

    def user_program(self, lang, order=None):
        """The generated program of P27, built the way a user of this flavour builds it."""
        src = os.path.join(HARNESS, "p27_prog.c")
        extra = []
        if "amal" in self.fl:
            d, _ = self.amalgamate(order)
            extra = ["-DP27_AMALGAMATED", "-I" + d]
        lib = self.lib_objects(order)
        try:
            fl = [self.opt, "-g1", "-fno-omit-frame-pointer", "-fPIC", "-pthread", "-w"] + core.SAN[self.san] + extra
            inc = self.inc() if "amal" not in self.fl else []
            std = ["-x", "c", "-std=gnu99"] if lang == "c" else ["-x", "c++", "-std=gnu++11", "-include", "stdint.h"]
            outs = []
            for i, (s, x) in enumerate(((src, []), (os.path.join(HARNESS, "p27_other.c"), []))):
                o = os.path.join(self.ctx.tmp, "up-%s-%s-%s-%s-%d-%s.o" % (self.name, lang.replace("+", "p"), self.san, self.cc, i, order))
                r = subprocess.run([self.cc if lang == "c" else self.cxx] + std + fl + x + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise FlavourError("a %s program does not compile: %s" % (lang, r.stdout.decode(errors="replace")[-1500:]))
                outs.append(o)
            cov = self.compile([os.path.join(HARNESS, "perturb.cpp")], own=True) if self.cov else []
            return self.link("up-%s-%s-%s-%s-%s" % (self.name, lang.replace("+", "p"), self.san, self.cc, order), outs + cov + lib)
        except CheckError as e:
            raise FlavourError(str(e))
