"""
Makes `import VolterraBasis` mean the working tree of /repo, native part included.

The Fortran extension is taken from /repo only when the stamp left by the build
says that it was compiled from the current source; otherwise it is compiled into
a scratch directory (removed at exit), so a check always judges the current tree.
"""
import atexit
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VBPBT_REPO", "/repo")
PKG = os.path.join(REPO, "VolterraBasis")
SRC = os.path.join(PKG, "fkernel.f90")


ASAN_MARK = "VBPBT_ASAN"


class HarnessError(Exception):
    pass


def reexec_with_asan():
    """
    Start the interpreter again with the address sanitizer loaded (once), when it
    works here; without it the native part is compiled with bounds checks only.
    """
    if os.environ.get(ASAN_MARK):
        return
    new = dict(os.environ)
    new[ASAN_MARK] = "off"
    try:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True, timeout=60).stdout.strip()
        probe = dict(new, LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=4194304")
        r = subprocess.run([sys.executable, "-c", "import numpy, os; os._exit(41 if os.fork() and os.wait() else 0)"], env=probe, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if os.path.isabs(lib) and r.returncode == 41 and b"cannot be preloaded" not in r.stdout:
            new = dict(probe)
            new[ASAN_MARK] = "on"
    except (OSError, subprocess.SubprocessError):
        pass
    os.execve(sys.executable, [sys.executable, "-m", "vbpbt.runner"] + sys.argv[1:], new)


def _sha_line(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest() + "  -"


def _inplace_so():
    so = os.path.join(PKG, "fkernel" + sysconfig.get_config_var("EXT_SUFFIX"))
    stamp = os.path.join(REPO, "build", "f2py", "source.sha256")
    try:
        with open(stamp) as f:
            got = f.read().strip()
        if got == _sha_line(SRC) + _sha_line(so):
            return so
    except OSError:
        pass
    return None


def build_fkernel(outdir, fflags=("-O2",)):
    """Compile fkernel.f90 of the working tree; returns the path of the extension module."""
    import numpy
    import numpy.f2py

    py = sys.executable
    src = os.path.join(outdir, "fkernel.f90")
    shutil.copy(SRC, src)
    f2pysrc = os.path.join(os.path.dirname(numpy.f2py.__file__), "src")
    so = os.path.join(outdir, "fkernel" + sysconfig.get_config_var("EXT_SUFFIX"))

    def run(cmd):
        clean = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        r = subprocess.run(cmd, cwd=outdir, env=clean, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))

    run([py, "-m", "numpy.f2py", "fkernel.f90", "-m", "fkernel"])
    wrappers = [os.path.basename(p) for p in glob.glob(os.path.join(outdir, "*f2pywrappers*")) if os.path.getsize(p) > 0]
    run(["gfortran", *fflags, "-fPIC", "-c", "fkernel.f90"])
    for w in wrappers:
        run(["gfortran", *fflags, "-fPIC", "-c", w])
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + f2pysrc]
    run(["gcc", "-O1", "-fPIC", "-w", *inc, "-c", "fkernelmodule.c", os.path.join(f2pysrc, "fortranobject.c")])
    objs = [os.path.basename(p) for p in glob.glob(os.path.join(outdir, "*.o"))]
    run(["gfortran", "-shared", "-o", so, *objs, "-llapack"])
    return so


def _preload(so):
    spec = importlib.util.spec_from_file_location("VolterraBasis.fkernel", so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["VolterraBasis.fkernel"] = mod
    spec.loader.exec_module(mod)
    return mod


def setup(checked=False):
    """Import the package; checked=True: native part compiled with run-time bounds checks."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.isfile(SRC):
        raise HarnessError("no source at " + SRC)
    so = None if checked else _inplace_so()
    mod = None
    if so is None:
        scratch = tempfile.mkdtemp(prefix="vbpbt_build_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
        flags = ("-O2",)
        if checked:
            flags = ("-O1", "-g", "-fcheck=bounds", "-finit-real=nan")
            if os.environ.get(ASAN_MARK) == "on":
                flags += ("-fsanitize=address", "-fno-omit-frame-pointer")
        so = build_fkernel(scratch, flags)
        mod = _preload(so)
    try:
        import VolterraBasis
        import VolterraBasis.basis  # noqa: F401
    except Exception as e:  # the tree does not import: nothing can be decided
        raise HarnessError("cannot import VolterraBasis: %r" % (e,))
    if mod is not None:
        VolterraBasis.fkernel = mod
    if not VolterraBasis.__file__.startswith(REPO + "/"):
        raise HarnessError("wrong VolterraBasis: " + VolterraBasis.__file__)
    return VolterraBasis
