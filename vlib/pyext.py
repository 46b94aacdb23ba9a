"""Builds the Python extensions of /repo (with the library inside) under AddressSanitizer and runs scripts in the real interpreter."""
import glob
import os
import shutil
import subprocess
import sysconfig

from vlib import core
from vlib.core import REPO, CheckError

PY = "/usr/bin/python3"
BIND = os.path.join(REPO, "bindings", "python3")


def _inc():
    r = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True)
    return r.stdout.split()


def runtime(san):
    r = subprocess.run(["clang", "-print-file-name=libclang_rt.%s-x86_64.so" % san], capture_output=True, text=True)
    p = r.stdout.strip()
    if not os.path.exists(p):
        raise CheckError("no shared sanitizer runtime")
    return p


def build(ctx, b, which):
    """Returns the directory to put on sys.path; the module is hawktracer.<which>."""
    inc, suf = _inc()
    srcs = sorted(glob.glob(BIND + "/*.cpp"))
    if which == "core":
        mine = [s for s in srcs if "core" in os.path.basename(s)]
        parts = core.lib_sources()
    else:
        mine = [s for s in srcs if "core" not in os.path.basename(s)]
        parts = core.lib_sources() + core.parser_sources() + core.client_utils_sources()
    extra = ["-I" + inc, "-I" + BIND]
    objs = b.compile(mine, extra=extra) + b.compile(parts)
    root = os.path.join(ctx.tmp, "py-%s-%s" % (which, b.san))
    d = os.path.join(root, "hawktracer")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "__init__.py"), "w").close()
    so = b.link("pyext-%s-%s.so" % (which, b.san), objs, shared=True,
                libs=["-shared-libasan"] if b.san == "asan" else [])
    shutil.move(so, os.path.join(d, which + suf))
    return root


def env(b, root, extra=None):
    e = {"PYTHONPATH": root + os.pathsep + os.path.join(core.VERIF, "harness"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    if b.san == "asan":
        e["LD_PRELOAD"] = runtime("asan")
        e["PYTHONMALLOC"] = "malloc"
        e["ASAN_OPTIONS"] = core.SAN_ENV["asan"]["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    e.update(extra or {})
    return e
