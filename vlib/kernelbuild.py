"""Build /repo's current native kernel outside the tree and inject it.

The compiled module next to the sources may be stale (a check must see the
working tree), so each check that needs the engine cythonizes and compiles
`pvtrace/engine/_kernel.pyx` into a scratch directory and installs the result
as `pvtrace.engine._kernel` in this process. Nothing is written under /repo.
"""
import atexit
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from common import REPO

VARIANTS = {
    # as pvtrace/engine/build.py builds it
    "release": (["gcc"], ["-O3", "-fwrapv", "-fopenmp"], ["-fopenmp"]),
    # no -fwrapv here: signed overflow is to be reported; float division by zero is
    # defined (IEC 559) and not reported
    "asan": (["gcc"], ["-O1", "-g", "-fopenmp", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                       "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    # on vlib/minigomp.c instead of libgomp
    "tsan": (["gcc"], ["-O1", "-g", "-fopenmp", "-fno-omit-frame-pointer", "-fno-strict-overflow",
                       "-fsanitize=thread"],
             ["-fsanitize=thread", "-Wl,-Bsymbolic", "-lgomp", "-lpthread"]),
    "initzero": (["gcc"], ["-O1", "-fwrapv", "-fopenmp", "-ftrivial-auto-var-init=zero"], ["-fopenmp"]),
    "initpattern": (["gcc"], ["-O1", "-fwrapv", "-fopenmp", "-ftrivial-auto-var-init=pattern"], ["-fopenmp"]),
}

_dirs = []
_owner = os.getpid()


def scratch(prefix="verif-"):
    d = tempfile.mkdtemp(prefix=prefix)
    _dirs.append(d)
    return d


@atexit.register
def _cleanup():
    if os.getpid() != _owner:
        return
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


class KernelBuildError(Exception):
    pass


def cythonize(workdir):
    src = os.path.join(REPO, "pvtrace", "engine")
    for pat in ("*.pyx", "*.pxd", "*.pxi", "*.h"):
        for f in glob.glob(os.path.join(src, pat)):
            shutil.copy(f, workdir)
    c = os.path.join(workdir, "_kernel.c")
    r = subprocess.run([sys.executable, "-m", "cython", "-3", "--module-name", "pvtrace.engine._kernel",
                        os.path.join(workdir, "_kernel.pyx"), "-o", c],
                       cwd=workdir, capture_output=True, text=True)
    if r.returncode != 0:
        raise KernelBuildError("cython failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    return c


def compile_c(c, variant="release", out=None, extra=()):
    import numpy
    cc, cflags, ldflags = VARIANTS[variant]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    out = out or os.path.join(os.path.dirname(c), variant, "_kernel" + suffix)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sources = [c]
    if variant == "tsan":
        sources.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "minigomp.c"))
    cmd = (cc + ["-shared", "-fPIC", "-w",
                 "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                 "-I", sysconfig.get_paths()["include"], "-I", numpy.get_include()]
           + cflags + list(extra) + sources + ["-o", out] + ldflags + ["-lm"])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise KernelBuildError("cc failed:\n" + r.stderr[-3000:])
    return out


def build(variant="release"):
    d = scratch("verif-kernel-")
    return compile_c(cythonize(d), variant)


def inject(path):
    import pvtrace.engine as eng
    name = "pvtrace.engine._kernel"
    sys.modules.pop(name, None)
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    eng._kernel = mod
    return mod


def use_release_kernel():
    path = build("release")
    return inject(path)
