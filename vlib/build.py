"""Build the extension of GERSL/pycold from /repo's current working tree.

Nothing of /repo's own build products is used: the C, Fortran and Cython sources are
compiled afresh into a private directory, next to a copy of the Python package, so a
check always judges the tree as it is now.  The result is cached under /verif/.cache,
keyed by the content of every source that goes into it (never by time stamps).
"""
import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
CACHE = VERIF / ".cache"
VENV = "/opt/pycold-venv"
C_SOURCES = ["cold.c", "input.c", "2d_array.c", "utilities.c", "misc.c", "multirobust.c",
             "output.c", "s_ccd.c", "KFAS.c", "lbfgs.c", "distribution_math.c"]
VARIANTS = {
    "plain": (["-O2", "-DNDEBUG"], ["-O2", "-DNDEBUG"]),
    # address + undefined behaviour instrumented library; -fno-sanitize=... leaves out only
    # the checks that fire on well-defined-in-practice struct packing of the numpy records
    "asan": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
             ["-O1", "-g", "-fno-omit-frame-pointer"]),
}


class BuildError(Exception):
    pass


def _sources():
    files = []
    for sub in ("src/cxx", "src/python/pycold"):
        for p in sorted((REPO / sub).rglob("*")):
            if p.is_file() and p.suffix in (".c", ".h", ".f", ".py", ".pyx", ".pxd", ".yaml", ".pxi", ".tif"):
                files.append(p)
    return files


def tree_hash(native=False):
    h = hashlib.sha256()
    for p in _sources():
        if native and p.suffix not in (".c", ".h", ".f", ".pyx", ".pxd", ".pxi"):
            continue
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    h.update(pathlib.Path(__file__).read_bytes())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(map(str, cmd)), r.stdout[-4000:]))


def _compile(dst, variant):
    cflags, fflags = VARIANTS[variant]
    obj = dst / "obj"
    obj.mkdir(parents=True)
    src = REPO / "src/cxx"
    pkg = dst / "pkg" / "pycold"
    shutil.copytree(REPO / "src/python/pycold", pkg,
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    so = pkg / "_colds_cython.cpython-312-x86_64-linux-gnu.so"
    kept = CACHE / ("native-%s-%s.so" % (tree_hash(True), variant))
    if kept.exists():       # (only Python files differ from an earlier build)
        shutil.copy(kept, so)
        os.utime(kept)
        shutil.rmtree(obj)
        return
    inc = subprocess.run([VENV + "/bin/python", "-c",
                          "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include'])"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    jobs = []
    for c in C_SOURCES:
        jobs.append(["gcc", "-w", "-fPIC", *cflags, "-c", str(src / c), "-o", str(obj / (c + ".o"))])
    jobs.append(["gfortran", "-w", "-fPIC", *fflags, "-c", str(src / "GLMnet.f"), "-o", str(obj / "GLMnet.o")])
    cyc = obj / "_colds_cython.c"

    def cython():
        _run([VENV + "/bin/cython", str(REPO / "src/python/pycold/_colds_cython.pyx"),
              "--output-file", str(cyc)])
        _run(["gcc", "-w", "-fPIC", *[f for f in cflags], "-DNPY_NO_DEPRECATED_API", "-I", inc[0],
              "-I", inc[1], "-I", str(REPO / "src/python/pycold"), "-c", str(cyc),
              "-o", str(obj / "cython.o")])

    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(cython)] + [ex.submit(_run, j) for j in jobs]
        for f in futs:
            f.result()
    san = ["-fsanitize=address"] if variant == "asan" else _thunks(obj)
    _run(["gcc", "-shared", *san, "-o", str(so), str(obj / "cython.o"),
          *[str(obj / (c + ".o")) for c in C_SOURCES], str(obj / "GLMnet.o"),
          "-lz", "-lgsl", "-lgslcblas", "-lgfortran", "-lm", "-lpthread"])
    shutil.rmtree(obj)
    part = CACHE / (kept.name + ".part")
    shutil.copy(so, part)
    os.rename(part, kept)


THUNK = """
    .globl __wrap_{f}
    .type __wrap_{f}, @function
    .weak __real_{f}
__wrap_{f}:
    cmpl $-1, vp_fill_hidden(%rip)
    je 1f
    mov %rdi, %r10
    mov %rcx, %r11
    sub ${n}, %rsp
    push %rax
    lea 8(%rsp), %rdi
    mov ${n}, %ecx
    movzbl vp_fill_hidden(%rip), %eax
    cld
    rep stosb
    pop %rax
    add ${n}, %rsp
    mov %r10, %rdi
    mov %r11, %rcx
1:  jmp *__real_{f}@GOTPCREL(%rip)
"""
FILL = r"""
/* the byte the stack below a called function is filled with; -1: nothing is filled */
int vp_fill_byte __attribute__((visibility("default"))) = -1;
extern int vp_fill_hidden __attribute__((alias("vp_fill_byte"), visibility("hidden")));
"""


def _thunks(obj):
    """Calls between the compiled files go through thunks that can fill the unused stack first (see vlib/dirty.py)."""
    defined, used, entry = set(), set(), set()
    for o in obj.glob("*.o"):
        for line in subprocess.run(["nm", str(o)], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            *_, kind, name = line.split()
            if kind == "T":
                defined.add(name)
            elif kind == "U":
                used.add(name)
                if o.name == "cython.o":
                    entry.add(name)
    names = sorted(n for n in defined & used if n.isidentifier() and not n.startswith("Py"))
    (obj / "fill.c").write_text(FILL)
    (obj / "thunk.s").write_text("    .text\n" + "".join(THUNK.format(f=n, n=160 * 1024 if n in entry else 3072) for n in names)
                                 + '    .section .note.GNU-stack,"",@progbits\n')
    _run(["gcc", "-O1", "-fPIC", "-c", str(obj / "fill.c"), "-o", str(obj / "fill.o")])
    _run(["gcc", "-c", str(obj / "thunk.s"), "-o", str(obj / "thunk.o")])
    return [str(obj / "fill.o"), str(obj / "thunk.o"), *["-Wl,--wrap=" + n for n in names]]


def _prune(keep=6):
    ent = sorted((p for p in CACHE.iterdir() if p.is_dir() and not p.name.startswith("tmp")),
                 key=lambda p: p.stat().st_mtime, reverse=True)
    for p in ent[keep:]:
        shutil.rmtree(p, ignore_errors=True)
    for p in sorted(CACHE.glob("native-*.so"), key=lambda p: p.stat().st_mtime, reverse=True)[keep:]:
        p.unlink()


def build(variant="plain"):
    """-> directory to put on sys.path; it contains the package `pycold`."""
    CACHE.mkdir(exist_ok=True)
    with open(CACHE / ("lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        final = CACHE / ("%s-%s" % (tree_hash(), variant))
        if not final.exists():
            tmp = pathlib.Path(tempfile.mkdtemp(prefix="tmp", dir=CACHE))
            try:
                _compile(tmp, variant)
                os.rename(tmp, final)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
        os.utime(final)
        _prune()
    return final / "pkg"


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
