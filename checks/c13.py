"""C13: the compact form of an S-CCD state restores the state bit for bit."""
import io
import itertools
import pickle
import sys
import types

import numpy as np

from vlib import px, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """explicit exploration of the reachable S-CCD states (offline starts of every kind, all words of fed observations up to the
bound); in every state the compact form is written and read by both implementations, compared field by field, and both copies are
advanced by every continuation of a set and compared again; plus enumeration of field values at the limits of their types and of lists
with every wrong number of parts"""
NOTE = """Exhaustive over the start histories, alphabets, confirmation lengths and depths reported."""
RULE = """restore(save(x)) equals x in every field, element type and shape, through a list, through pickle and through a tile file
holding several pixels; x is left as it was; continuing from the copy gives the same result as continuing from x."""


def readers():
    """the two readers of the package"""
    if "mpi4py" not in sys.modules:
        m, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
        mpi.COMM_WORLD = None
        m.MPI = mpi
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, mpi
    from pycold import utils
    from pycold.imagetool import export_change_map
    return dict(utils=utils.index_sccdpack, export=export_change_map.index_sccdpack)


def same(a, b):
    """-> names of the fields that differ (values, element types, shapes)"""
    out = []
    if list(a._fields) != list(b._fields):
        return ["fields"]
    for n, x, y in zip(a._fields, a, b):
        if n in ("position", "nrt_mode"):
            ok = int(x) == int(y)
        elif n == "min_rmse":
            ok = np.array_equal(np.asarray(x), np.asarray(y)) and np.asarray(x).dtype == np.asarray(y).dtype
        elif len(x) == 0 or len(y) == 0:
            ok = len(x) == len(y)
        else:
            ok = x.dtype.fields.keys() == y.dtype.fields.keys() and x.shape == y.shape and all(
                x[k].dtype == y[k].dtype and x[k].shape == y[k].shape and np.ascontiguousarray(x[k]).tobytes() == np.ascontiguousarray(y[k]).tobytes()
                for k in x.dtype.names)
        if not ok:
            out.append(n)
    return out


def roundtrip(p, fails, where, read):
    from pycold import utils
    before = px.freeze(p)
    lst = utils.unindex_sccdpack(p)
    if len(lst) != 6 or not isinstance(lst, list):
        fails.append(("parts", dict(where=where, n=len(lst))))
        return []
    blob = pickle.dumps(lst)
    out = []
    for n, f in read.items():
        for how, form in (("list", lst), ("pickle", pickle.loads(blob))):
            frozen = pickle.dumps(form)
            x = f(form)
            d = same(p, x)
            if d:
                fails.append(("%s-%s-%s" % (n, how, d[0]), dict(where=where, fields=d)))
            if pickle.dumps(form) != frozen:
                fails.append(("%s-%s-input-changed" % (n, how), dict(where=where)))
            out.append(x)
    if px.freeze(p) != before:
        fails.append(("original-changed", dict(where=where)))
    return out


def subtree(case):
    import pycold
    from pycold import utils
    name, conse, c2, gap, prefix, alpha, depth, nexts = case
    read = readers()
    st = dict(digests=set(), states=0, continuations=0)
    fails = []
    kept = []

    def visit(p, path, date):
        st["states"] += 1
        st["digests"].add(px.digest(p))
        copies = roundtrip(p, fails, path, read)
        if not copies or len(fails) > 10:
            return True
        kept.append(p)
        for word in nexts:
            rows = [states.feed_row(name, t, date + 16 * (i + 1)) for i, t in enumerate(word)]
            st["continuations"] += 1
            want = px.update(p, states.arr(rows), conse=conse, b_c2=c2)
            for x in copies[1::2]:
                got = px.update(x, states.arr(rows), conse=conse, b_c2=c2)
                if got[0] != want[0] or px.freeze(got[1:]) != px.freeze(want[1:]):
                    fails.append(("continuation", dict(path=path, word=word, original=want[0], copy=got[0])))
        a, b = pycold.sccd_identify(p, 1, 1.0), pycold.sccd_identify(copies[1], 1, 1.0)
        if px.freeze(a[0]) != px.freeze(b[0]) or a[1] != b[1]:
            fails.append(("alert", dict(path=path)))
    fails += states.walk(name, conse, c2, gap, prefix, alpha, depth, visit)
    # the tile format: the saved forms of many pixels in one file, read until its end
    f = io.BytesIO()
    for p in kept:
        pickle.dump(utils.unindex_sccdpack(p), f)
    f.seek(0)
    back = []
    while True:
        try:
            back.append(read["export"](pickle.load(f)))
        except EOFError:
            break
    if len(back) != len(kept) or any(same(a, b) for a, b in zip(kept, back)):
        fails.append(("file", dict(written=len(kept), read=len(back))))
    return fails, st


def long_runs(case):
    """states with many segments and long queues"""
    name, conse, word, size = case
    p = px.sccd(states.arr(states.initial(name)), conse=conse)[1]
    date = states.initial(name)[-1][0]
    st = dict(digests=set(), states=0)
    fails = []
    read = readers()
    for i in range(0, len(word), size):
        rows = [states.feed_row(name, t, date + 16 * (k + 1)) for k, t in enumerate(word[i:i + size])]
        date = rows[-1][0]
        r = px.update(p, states.arr(rows), conse=conse)
        if r[0] != "ok":
            break
        copies = roundtrip(r[1], fails, i, read)
        for x in copies:
            p = x           # continue from the restored state
        st["states"] += 1
        st["digests"].add(px.digest(p))
        if same(r[1], p) or len(fails) > 5:
            break
    return fails, st


def extremes(case):
    """one field of one state set to a limit of its type"""
    name, part, field, value, index = case
    p = px.sccd(states.arr(states.initial(name)), conse=4, pos=2 ** 31 - 1)[1]
    fails = []
    if part == "scalar":
        p = p._replace(**{field: value})
    elif part == "min_rmse":
        m = np.array(p.min_rmse)
        m[index] = value
        p = p._replace(min_rmse=m)
    else:
        a = getattr(p, part).copy()
        if len(a) == 0:
            return [], None
        v = np.array(a[field])
        v[(slice(None),) if index is None else (-1,)] = value
        a[field] = v
        p = p._replace(**{part: a})
    roundtrip(p, fails, str(case), readers())
    return fails, px.digest(p)


def wrong(case):
    """lists with a wrong number of parts"""
    from pycold import utils
    name, what = case
    p = px.sccd(states.arr(states.initial(name)), conse=4)[1]
    lst = utils.unindex_sccdpack(p)
    bad = []
    if what == "prefixes":
        bad = [lst[:k] for k in range(6)] + [lst + lst[:k] for k in range(1, 7)]
    elif what == "dropped":
        bad = [[x for i, x in enumerate(lst) if i != k] for k in range(6)]
    elif what == "repeated":
        bad = [lst[:k + 1] + lst[k:] for k in range(6)]
    fails = []
    for b in bad:
        for n, f in readers().items():
            r = px.call(f, b)
            if r[0] == "ok":
                fails.append(("accepted-%s" % n, dict(parts=len(b))))
    return fails, "%s %s" % case


def limits(dt):
    if dt.kind == "f":
        i = np.finfo(dt)
        return [float(v) for v in (0.0, -0.0, i.tiny, i.tiny / 4, -i.max, i.max, np.inf, -np.inf, np.nan, np.float32(1) / 3, 16777217.0)]
    i = np.iinfo(dt)
    return [int(i.min), int(i.max), 0, 1, int(i.max) // 2 + 1]


def run(ctx):
    from pycold import common
    readers()
    q = ctx.quick
    names = list(states.INIT)
    nexts = ("A", "B", "n", "c", "BBBBBBBBBB") if q else ("A", "B", "n", "c", "o", "C", "BBBBBBBBBB", "A" * 30, "n" * 20, "AB" * 20)
    A = ("A", "B", "x", "c", "n", "!")
    cs = [(n, c, c2, 16, (a,), A, 4 if q else 6, nexts) for n in names for c in ((1, 4, 8) if q else range(1, 9))
          for c2 in ((False,) if q else (False, True)) for a in A]
    cs += [(n, c, False, 40, (a,), ("A", "B"), 6 if q else 9, nexts) for n in names for c in (2, 3) for a in "AB"]
    run_cases(ctx, "states", subtree, cs, case_timeout=600,
              describe=lambda c: dict(zip(("history", "conse", "c2", "gap", "prefix", "alphabet", "depth", "continuations"), c)))
    words = ("AB" * 150, ("A" * 30 + "B" * 30) * 8, ("A" * 22 + "B" * 22) * 20, "A" * 300, "AxBAAxxBcAnBB" * 24, "n" * 300, "nA" * 100, "ABC" * 90)
    run_cases(ctx, "long", long_runs, [(n, c, w, s) for n in names for w in words for c in ((1, 4) if q else range(1, 9))
                                       for s in ((17,) if q else (1, 7, 30))], case_timeout=300,
              describe=lambda c: dict(zip(("history", "conse", "word", "batch"), c)))
    es = []
    for n in ("monitor", "two", "queue", "broken", "snow", "snowfull", "void"):
        for part, dt in (("rec_cg", common.sccd_dt), ("nrt_model", common.nrtmodel_dt), ("nrt_queue", common.nrtqueue_dt)):
            for f in dt.names:
                base = dt[f].base
                es += [(n, part, f, v, i) for v in limits(base) for i in (None, -1)]
        es += [(n, "min_rmse", None, v, i) for v in (0, 1, 32767, -32768) for i in range(6)]
        es += [(n, "scalar", "position", v, None) for v in (0, 1, 2 ** 31 - 1, -1)]
        es += [(n, "scalar", "nrt_mode", v, None) for v in (0, 1, 2, 3, 4, 5, 11, 12)]
    run_cases(ctx, "extremes", extremes, es, describe=lambda c: dict(zip(("history", "part", "field", "value", "index"), c)))
    run_cases(ctx, "wrong-parts", wrong, [(n, w) for n in names for w in ("prefixes", "dropped", "repeated")])
    ctx.coverage["exhaustive"] = True
