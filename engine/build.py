"""Compile the library's current sources plus one harness unit to linked LLVM IR."""
import glob
import os
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("QLIBS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin/"
FLAGS = ["-std=c++11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-exceptions",
         "-fno-rtti", "-fno-threadsafe-statics", "-Wno-everything"]


class BuildError(Exception):
    pass


class InterfaceError(BuildError):
    """the library itself compiles, a program that uses its documented interface does not"""


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp"))
    if len(s) < 10:
        raise BuildError("library sources not found under %s/src" % REPO)
    return s


_cache = {}


def module_text(harness=(), defines=(), only=None, passes="mem2reg", flags=()):
    key = (tuple(harness), tuple(defines), tuple(only or ()), passes, tuple(flags))
    if key in _cache:
        return _cache[key]
    d = tempfile.mkdtemp(prefix="qv_")
    try:
        srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
        units = srcs + [os.path.join(VERIF, "harness", h) for h in harness]
        inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/include", "-I" + os.path.join(VERIF, "harness")]
        jobs = []
        for i, s in enumerate(units):
            o = os.path.join(d, "%d.bc" % i)
            jobs.append((["clang++-18"] + FLAGS + list(flags) + ["-D" + x for x in defines] + inc +
                         ["-c", "-emit-llvm", s, "-o", o], o))
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(_run, j[0]) for j in jobs]
        for f in futs[:len(srcs)]:
            f.result()
        for f in futs[len(srcs):]:
            try:
                f.result()
            except BuildError as x:
                raise InterfaceError(str(x))
        out = os.path.join(d, "all.bc")
        _run([LLVM + "llvm-link"] + [j[1] for j in jobs] + ["-o", out])
        ll = os.path.join(d, "all.ll")
        _run([LLVM + "opt", "-S", "-passes=" + passes, out, "-o", ll])
        with open(ll) as f:
            t = f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _cache[key] = t
    return t
