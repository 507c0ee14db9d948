"""The file system as seen by the workers of a parallel program under vlib.sched: every operation on a path below the
controlled folder is a place where another worker may run, or where everything may stop.  Files are written in steps
(created empty, half written, complete), so that what another worker or a restart finds is what it could really find."""
import builtins
import io
import os
import shutil
import sys
import threading
import time

from vlib.sched import Deadlock, Killed, Sched  # noqa: F401

WORLD = None


class World:
    def __init__(self, root, funcs, choices=(), shared=None, crash_at=None, order=None, max_steps=20000, halves=False,
                 on_change=None, listing=None):
        """shared: paths whose operations are scheduling points (None: every operation is one, as needed for crashes);
        order: the workers' order of preference"""
        self.root = os.path.realpath(root)
        self.shared, self.crash_at = shared, crash_at
        self.listing = listing      # (worker, folder, names) -> the names in the order that worker finds them
        self.halves = halves        # files also exist half-written
        self.on_change = on_change  # called before every change
        self.acc = {}               # key -> {worker: "r" | "w"}
        self.writing = {}           # path -> worker, while incomplete
        self.version = 0            # number of changes to the file system so far
        self.round = 0
        self.stuck = (-1, 0)
        self.torn_reads = []
        self.naps = 0
        n = len(funcs)
        self.order = list(range(n)) if order is None else list(order)
        self.seen = {i: (0, 0) for i in range(n)}
        self.s = Sched([funcs[i] for i in self.order], choices, max_steps)
        self.s.crash_at = crash_at
        self.s.on_stuck = self.on_stuck
        self.threads = {t.thread: self.order[t.idx] for t in self.s.tasks}

    def run(self):
        global WORLD
        install()
        WORLD = self
        try:
            self.s.run()
        finally:
            WORLD = None
        return self

    # time passes when all workers wait
    def on_stuck(self):
        v, n = self.stuck
        n = n + 1 if v == self.version else 1
        self.stuck = (self.version, n)
        self.round += 1
        return n <= 3

    def me(self):
        return self.threads.get(threading.current_thread())

    def key(self, path):
        if not isinstance(path, (str, os.PathLike)):
            return None
        p = os.path.abspath(os.fspath(path))
        if p == self.root or p.startswith(self.root + "/"):
            return p[len(self.root) + 1:] or "."
        return None

    def op(self, label, reads=(), writes=(), enabled=None):
        if self.s.kill:
            raise Killed()
        r = self.me()
        hit = self.shared is None
        for ks, m in ((reads, "r"), (writes, "w")):
            for k in ks:
                a = self.acc.setdefault(k, {})
                if a.get(r) != "w":
                    a[r] = m
                hit = hit or k in self.shared
        if hit:
            self.s.point("%s %s" % (label, (list(writes) + list(reads))[0]))
        if writes:
            self.version += 1
            if self.on_change is not None:
                self.on_change()

    def conflicts(self):
        return {k for k, a in self.acc.items() if len(a) > 1 and "w" in a.values()}

    def ancestors(self, k):
        out = []
        while "/" in k:
            k = k.rsplit("/", 1)[0]
            out.append(k)
        return out

    def change(self, label, k, entry=True):
        """an operation that creates, replaces or removes path k"""
        up = k.rsplit("/", 1)[0] if "/" in k else "."
        self.op(label, self.ancestors(k), [k] + ([up + "/*"] if entry else []))

    def look(self, label, k):
        self.op(label, [k] + self.ancestors(k))
        if k in self.writing and self.writing[k] != self.me():
            if label in ("read", "load"):
                self.torn_reads.append((self.me(), k, self.writing[k]))

    # writing a file in steps
    def put(self, path, k, data):
        existed = os.path.lexists(path)
        self.change("create", k, not existed)
        self.writing[k] = self.me()
        with R["open"](path, "wb"):
            pass
        if self.halves and len(data) > 1:
            self.change("half-write", k, False)
            with R["open"](path, "wb") as f:
                f.write(data[:len(data) // 2])
        if data:
            self.change("write", k, False)
            with R["open"](path, "wb") as f:
                f.write(data)
        self.writing.pop(k, None)


LOCAL = threading.local()       # (inside an operation that was already counted)


def world():
    w = WORLD
    return w if w is not None and w.me() is not None and not getattr(LOCAL, "inside", False) else None


def call(name, *a, **kw):
    LOCAL.inside = True
    try:
        return R[name](*a, **kw)
    finally:
        LOCAL.inside = False


class Out(io.BytesIO):
    def __init__(self, w, path, k, data=b""):
        super().__init__()
        self.w, self.path, self.k = w, path, k
        self.write(data)
        self.name = path

    def _put(self):
        w = self.w
        if WORLD is not w or w.me() is None or w.s.kill:
            return
        data = self.getvalue()
        if data:
            if w.halves and len(data) > 1:
                w.change("half-write", self.k, False)
                with R["open"](self.path, "wb") as f:
                    f.write(data[:len(data) // 2])
            w.change("write", self.k, False)
            with R["open"](self.path, "wb") as f:
                f.write(data)
        w.writing.pop(self.k, None)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            try:
                self._put()
            finally:
                super().close()


class TextOut(io.TextIOWrapper):
    pass


R = {}


def sh_open(file, mode="r", *a, **kw):
    w = world()
    k = w.key(file) if w else None
    if k is None:
        return R["open"](file, mode, *a, **kw)
    if "r" in mode and "+" not in mode:
        w.look("read", k)
        return R["open"](file, mode, *a, **kw)
    path = os.fspath(file)
    existed = os.path.lexists(path)
    w.change("create", k, not existed)
    data = b""
    if "a" in mode and existed:
        with R["open"](path, "rb") as f:
            data = f.read()
    if "x" in mode and existed:
        raise FileExistsError(path)
    with R["open"](path, "ab" if "a" in mode else "wb"):
        pass
    w.writing[k] = w.me()
    out = Out(w, path, k, data)
    return out if "b" in mode else TextOut(out, encoding=kw.get("encoding") or "utf-8", newline=kw.get("newline"))


def sh_save(file, arr, *a, **kw):
    w = world()
    k = w.key(file) if w else None
    if k is None:
        return R["save"](file, arr, *a, **kw)
    path = os.fspath(file)
    if not path.endswith(".npy"):
        path, k = path + ".npy", k + ".npy"
    b = io.BytesIO()
    R["save"](b, arr, *a, **kw)
    w.put(path, k, b.getvalue())


def sh_dump(value, filename, *a, **kw):
    w = world()
    k = w.key(filename) if w else None
    if k is None:
        return R["dump"](value, filename, *a, **kw)
    b = io.BytesIO()
    R["dump"](value, b, *a, **kw)
    w.put(os.fspath(filename), k, b.getvalue())
    return [filename]


def reader(name, label):
    def f(path, *a, **kw):
        w = world()
        k = w.key(path) if w else None
        if k is not None:
            w.look(label, k)
        return call(name, path, *a, **kw)
    return f


def changer(name, label):
    def f(path, *a, **kw):
        w = world()
        k = w.key(path) if w else None
        if k is not None:
            w.change(label, k)
        return call(name, path, *a, **kw)
    return f


def sh_listdir(path="."):
    w = world()
    k = w.key(path) if w else None
    if k is not None:
        w.op("list", [k + "/*", k] + w.ancestors(k))
    names = sorted(R["listdir"](path))
    if w is not None and w.listing is not None:
        names = w.listing(w.me(), os.fspath(path), names)
    return names


class Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.it = iter(())

    def close(self):
        pass


def sh_scandir(path="."):
    w = world()
    if w is None or not isinstance(path, (str, os.PathLike)):
        return R["scandir"](path)
    k = w.key(path)
    if k is not None:
        w.op("list", [k + "/*", k] + w.ancestors(k))
    with R["scandir"](path) as it:
        es = {e.name: e for e in it}
    names = sorted(es)
    if w.listing is not None:
        names = w.listing(w.me(), os.fspath(path), names)
    return Scan([es[n] for n in names])


def sh_rmtree(path, ignore_errors=False, *a, **kw):
    w = world()
    k = w.key(path) if w else None
    if k is None:
        return call("rmtree", path, ignore_errors, *a, **kw)
    path = os.fspath(path)
    if not os.path.lexists(path):
        w.op("rmtree", [k] + w.ancestors(k))
        if not ignore_errors:
            raise FileNotFoundError(path)
        return
    for d, ds, fs in os.walk(path, topdown=False):
        for f in sorted(fs):
            w.change("remove", w.key(os.path.join(d, f)))
            call("remove", os.path.join(d, f))
        w.change("rmdir", w.key(d))
        os.rmdir(d)


def sh_rename(name):
    def f(src, dst, *a, **kw):
        w = world()
        k, d = (w.key(src), w.key(dst)) if w else (None, None)
        if k is not None or d is not None:
            ks = [x for x in (d, k) if x]
            ups = [x.rsplit("/", 1)[0] + "/*" if "/" in x else "./*" for x in ks]
            w.op("rename", [a for x in ks for a in w.ancestors(x)], ks + ups)
            if k in w.writing:
                w.writing[d] = w.writing.pop(k)
            else:
                w.writing.pop(d, None)
        return R[name](src, dst, *a, **kw)
    return f


def sh_sleep(t):
    w = world()
    if w is None:
        return R["sleep"](t)
    if w.s.kill:
        raise Killed()
    r = w.me()
    w.naps += 1
    w.s.point("sleep", lambda: (w.version, w.round) != w.seen[r])
    w.seen[r] = (w.version, w.round)


def sh_warp(dst, *a, **kw):
    from osgeo import gdal
    w = world()
    k = w.key(dst) if w else None
    if k is None:
        return R["warp"](dst, *a, **kw)
    tmp = os.path.join(w.root, "..", "warp-%d-%d.tif" % (os.getpid(), w.me()))
    out = R["warp"](tmp, *a, **kw)
    if out is None:
        return None
    out = None
    with R["open"](tmp, "rb") as f:
        data = f.read()
    R["remove"](tmp)
    w.put(os.fspath(dst), k, data)
    return gdal.Open(os.fspath(dst))


def install():
    if R:
        return
    import tarfile
    import joblib
    import numpy as np
    from osgeo import gdal, gdal_array
    table = [("open", builtins, "open", sh_open), ("save", np, "save", sh_save), ("load", np, "load", reader("load", "load")),
             ("mkdir", os, "mkdir", changer("mkdir", "mkdir")), ("remove", os, "remove", changer("remove", "remove")),
             ("unlink", os, "unlink", changer("unlink", "remove")), ("rmtree", shutil, "rmtree", sh_rmtree), ("scandir", os, "scandir", sh_scandir),
             ("replace", os, "replace", sh_rename("replace")), ("rename", os, "rename", sh_rename("rename")),
             ("listdir", os, "listdir", sh_listdir), ("exists", os.path, "exists", reader("exists", "exists")),
             ("isfile", os.path, "isfile", reader("isfile", "exists")), ("isdir", os.path, "isdir", reader("isdir", "exists")),
             ("sleep", time, "sleep", sh_sleep), ("dump", joblib, "dump", sh_dump), ("jload", joblib, "load", reader("jload", "load")),
             ("warp", gdal, "Warp", sh_warp), ("LoadFile", gdal_array, "LoadFile", reader("LoadFile", "load")),
             ("topen", tarfile, "bltn_open", sh_open)]
    for name, mod, attr, new in table:
        R[name] = getattr(mod, attr)
    for name, mod, attr, new in table:
        setattr(mod, attr, new)
    # names imported from those modules
    subst = [(R[name], new) for name, mod, attr, new in table if mod is not builtins]
    for n, m in list(sys.modules.items()):
        if n == "pycold" or n.startswith("pycold."):
            for a, v in list(vars(m).items()):
                for old, new in subst:
                    if v is old:
                        setattr(m, a, new)


def tree(root, skip=lambda rel: False):
    """{relative path: content} of everything below root"""
    op = R.get("open", builtins.open)
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if not skip(rel):
                with op(p, "rb") as h:
                    out[rel] = h.read()
        for x in ds:
            rel = os.path.relpath(os.path.join(d, x), root)
            if not skip(rel + "/"):
                out[rel + "/"] = b""
    return out
