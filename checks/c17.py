"""C17: exported maps against the recorded changes."""
import datetime
import itertools
import os
import pathlib
import pickle
import shutil
import sys
import tempfile
import threading
import types

import numpy as np

from vlib import sched
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """explicit enumeration of all small tile layouts, worker numbers, subsets of missing blocks and assignments of change
records to pixels, each run through the real export program with its message passing replaced by a controlled scheduler; for the
smallest tiles all orders in which the workers proceed (up to a preemption bound) are explored; every pixel of every image is compared
with the records"""
NOTE = """Exhaustive over the layouts, record menus, worker numbers and schedules reported.  The message passing library is replaced by a
stand-in with the same semantics (collective broadcast, barrier)."""
RULE = """Every image has the tile's size; a break map holds, at the pixel's own place and the year of its break, type * 1000 + day of the
year of a confirmed break recorded there, else no-data; recent/first maps hold the latest/earliest year of a disturbance-type break, else 0;
coefficient maps hold the features of the pixel's own segments.  No temporary file is left.  Distinct = case."""

NODATA = -9999
COEFS = ("a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse", "cv")


def day(y, m, d):
    return datetime.date(y, m, d).toordinal()


# magnitudes: (red, nir, swir1) of the three groups; the slope of the next segment decides whether a greening is afforestation
DIST, GREEN, FLIP = (500, -800, 600), (-300, 400, -300), (-900, -700, -900)
# one pixel's segments: (start, end, break or 0, probability, magnitude kind, slope factor)
MENUS = [
    [],
    [(day(1999, 1, 5), day(2003, 5, 5), 0, 0, DIST, 1)],
    [(day(1998, 1, 5), day(2000, 12, 20), day(2000, 12, 31), 100, DIST, 1), (day(2001, 1, 20), day(2003, 5, 5), 0, 0, DIST, 1)],
    [(day(1998, 1, 5), day(2000, 12, 20), day(2001, 1, 1), 100, GREEN, 1), (day(2001, 1, 20), day(2003, 5, 5), 0, 0, DIST, 1)],
    [(day(1998, 1, 5), day(2000, 12, 20), day(2001, 2, 1), 100, GREEN, 1), (day(2001, 2, 20), day(2003, 5, 5), 0, 0, DIST, 5)],
    [(day(1998, 1, 5), day(1999, 3, 20), day(1999, 4, 1), 100, DIST, 1), (day(1999, 5, 20), day(2001, 5, 5), day(2001, 7, 2), 100, DIST, 1),
     (day(2001, 7, 2), day(2003, 9, 9), day(2003, 10, 1), 67, GREEN, 1)],
    [(day(1990, 1, 5), day(1994, 3, 20), day(1994, 4, 1), 100, DIST, 1), (day(1994, 5, 20), day(2000, 2, 5), day(2000, 2, 29), 100, DIST, 1),
     (day(2000, 3, 2), day(2003, 9, 9), day(2003, 10, 1), 100, FLIP, 1)],
    [(day(1999, 7, 1), day(2000, 7, 1), day(2000, 7, 1), 100, GREEN, 1), (day(2000, 7, 1), day(2001, 7, 1), day(2001, 7, 1), 100, DIST, 2)],
    [(day(1995, 7, 1), day(1997, 7, 1), day(1997, 7, 1), 100, FLIP, 1), (day(1997, 9, 1), day(1999, 7, 1), day(1999, 8, 8), 100, DIST, 2),
     (day(1999, 9, 1), day(2001, 7, 1), day(2001, 8, 8), 100, FLIP, 2), (day(2001, 9, 1), day(2006, 1, 1), 0, 0, DIST, 1)],
    [(day(1998, 1, 5), day(2000, 6, 20), day(2000, 7, 3), 99, DIST, 1)],
]
# breaks of opposite sign after one another (7 bands), the first within, at and beyond five years before the second
UP, DOWN, FOUR, THREE, ZERO = (900,) * 7, (-900,) * 7, (-9, 5, -9, -9, -9, -9, 5), (-9, -9, -9, -9, 5, 5, -9), (-9, -9, 0, -9, 0, -9, -9)


def chain(*breaks):
    """segments that end in these (day, magnitude[, probability])"""
    out, t0 = [], day(1985, 1, 5)
    for b in breaks:
        out.append((t0, b[0] - 20, b[0], b[2] if len(b) > 2 else 100, b[1], 1))
        t0 = b[0]
    return out


T = day(2001, 3, 3)
MENUS += [
    chain((day(2000, 6, 1), UP)), chain((T, DOWN)), chain((day(2000, 6, 1), UP), (T, DOWN)),
    chain((T - 1826, UP), (T, DOWN)), chain((T - 1827, UP), (T, DOWN)), chain((T - 300, UP), (T, FOUR)), chain((T - 300, UP), (T, THREE)),
    chain((T - 300, UP), (T, ZERO)), chain((T - 600, UP), (T - 300, GREEN), (T, DOWN)), chain((T - 600, UP), (T - 300, DOWN), (T, UP)),
    chain((T - 600, UP), (T - 300, UP, 67), (T, DOWN)), chain((T - 600, GREEN), (T - 300, UP), (T, DOWN)) + [(T + 9, T + 700, 0, 0, UP, 1)],
]
NFEW = len(MENUS)


def limits():
    """magnitudes around both thresholds, slopes around those of the segment before"""
    V = (-251, -250, -249, -201, -200, -199, 0, 199, 200, 201, 249, 250, 251)
    out = [chain((T, (0, 0, r, n, s, 0, 0))) for r in V for n in V for s in V]
    for prev in itertools.product((-100, 100), repeat=3):
        for nxt in itertools.product((-101, -100, -99, 99, 100, 101), repeat=3):
            c = chain((T, (0, 0, -300, 300, -300, 0, 0)))
            out.append([c[0][:5] + (prev,), (T + 9, T + 900, 0, 0, UP, nxt)])
    return out


MENUS += limits()


def mags(mag):
    return list(mag) if len(mag) == 7 else [40, 50, mag[0], mag[1], mag[2], 70, 0]


def slopes(slope):
    """c1 of red, nir, swir1"""
    return slope if isinstance(slope, tuple) else (-slope * 102, slope * 103, -slope * 104)


def records(menu, pos):
    from pycold.common import reccg_dt
    r = np.zeros(len(menu), dtype=reccg_dt)
    for i, (t0, t1, tb, prob, mag, slope) in enumerate(menu):
        x = r[i]
        x["t_start"], x["t_end"], x["t_break"], x["pos"], x["change_prob"], x["num_obs"] = t0, t1, tb, pos, prob, 20 + i
        x["magnitude"] = mags(mag)
        for b in range(7):
            x["coefs"][b] = [1000 * (i + 1) + 100 * b + pos % 11 + k for k in range(8)]
            x["rmse"][b] = 10 * b + i + 0.25
        for b in range(7):
            x["coefs"][b][1] = slopes(slope)[b - 2] if b in (2, 3, 4) else 100 + b
    return r


def sccd_rec(menu, pos):
    from pycold.common import SccdOutput, nrtmodel_dt, nrtqueue_dt, sccd_dt
    done = [s for s in menu if s[2] and s[3] == 100]
    r = np.zeros(len(done), dtype=sccd_dt)
    for i, (t0, t1, tb, prob, mag, slope) in enumerate(done):
        r[i]["t_start"], r[i]["t_break"], r[i]["num_obs"] = t0, tb, 20
        r[i]["magnitude"] = mags(mag)[:6]
    model, queue = np.zeros(pos % 2, dtype=nrtmodel_dt), np.zeros(3 * (pos % 3), dtype=nrtqueue_dt)
    if not len(done):
        r = np.array([])
    return SccdOutput(pos, r, np.zeros(6, np.int16), 1 if len(model) else 2, model if len(model) else np.array([]), queue if len(queue) else np.array([]))


# -- what must be in the maps --------------------------------------------------------------
def types_of(menu, method):
    """-> [(break day, type)] of the confirmed breaks"""
    out, last_type = [], 0
    for i, (t0, t1, tb, prob, mag, slope) in enumerate(menu):
        if not tb or prob < 100:
            continue
        t_c = -250 if method == "OBCOLD" else -200
        m = mags(mag)
        if m[2] < -t_c and m[3] > t_c and m[4] < -t_c:
            kind = 2
            if method != "SCCDOFFLINE" and i + 1 < len(menu):
                was, n = slopes(slope), slopes(menu[i + 1][5])
                # the slopes of red and swir1 must fall, that of nir rise, by more than they did
                if n[0] < -abs(was[0]) and n[1] > abs(was[1]) and n[2] < -abs(was[2]):
                    kind = 3
        elif method == "OBCOLD" and i > 0 and not (tb - menu[i - 1][2] > 365.25 * 5 or last_type != 1):
            now, then = m[1:6], mags(menu[i - 1][4])[1:6]
            kind = 4 if sum(a * b < 0 for a, b in zip(now, then)) >= 4 else 1
        else:
            kind = 1
        last_type = kind
        out.append((tb, kind))
    return out


def feature(menu, pos, band, name, year):
    d = day(year, 7, 1)
    if name == "cv":
        for i, s in enumerate(menu):
            if s[2] and s[3] == 100 and datetime.date.fromordinal(s[2]).year == year:
                return float(mags(s[4])[band])
        return float(NODATA)
    for i, s in enumerate(menu):
        hi = menu[i + 1][0] if i + 1 < len(menu) else day(datetime.date.fromordinal(s[1]).year, 12, 31)
        if s[0] <= d < hi:
            c = records(menu, pos)[i]
            k = {"a0": 0, "c1": 1, "a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}.get(name)
            if name == "rmse":
                return float(c["rmse"][band])
            v = c["coefs"][band]
            return float(v[0]) + float(v[1]) * d / 10000 if k == 0 else float(v[k]) / (10000 if k == 1 else 1)
    return float(NODATA)


# -- message passing -----------------------------------------------------------------------
class World:
    """what mpi4py.MPI.COMM_WORLD offers, under the scheduler"""
    s = None

    def start(self, s, n):
        self.s, self.n = s, n
        self.sent, self.calls, self.arrived = {}, [0] * n, [0] * n

    def Get_rank(self):
        return self.s.me()

    def Get_size(self):
        return self.n

    def bcast(self, obj, root=0):
        me = self.s.me()
        k = self.calls[me]
        self.calls[me] += 1
        if me == root:
            self.sent[k] = pickle.dumps(obj)
            return obj
        if k not in self.sent:
            self.s.point("receive", lambda: k in self.sent)
        return pickle.loads(self.sent[k])

    def Barrier(self):
        me = self.s.me()
        self.arrived[me] += 1
        n = self.arrived[me]
        self.s.point("barrier", lambda: all(a >= n for a in self.arrived))
    barrier = Barrier


WORLD = World()


def program():
    m, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = WORLD
    m.MPI = mpi
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, mpi
    from osgeo import gdal
    gdal.UseExceptions()
    from pycold.imagetool import export_change_map
    return export_change_map


def case_run(case):
    (rows, cols, nbx, nby), nproc, method, missing, assign, years, coefs, bands, bound, order = case
    ex = program()
    from osgeo import gdal
    base = pathlib.Path(tempfile.mkdtemp(prefix="c17-"))
    fails = []
    st = dict(digests=set(), schedules=0, pixels=0)
    try:
        rec = base / "rec"
        src = rec / "obcold" if method == "OBCOLD" else rec
        src.mkdir(parents=True)
        ref = gdal.GetDriverByName("GTiff").Create(str(base / "ref.tif"), cols, rows, 1, gdal.GDT_Byte)
        ref.SetGeoTransform((100.0, 30.0, 0.0, 900.0, 0.0, -30.0))
        ref = None
        (base / "c.yaml").write_text("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))
        bw, bh = cols // nbx, rows // nby
        menus = {}
        for r in range(rows):
            for c in range(cols):
                pos = r * cols + c + 1
                by, bx = r // bh, c // bw
                menus[r, c] = MENUS[assign[(pos - 1) % len(assign)]] if by * nbx + bx + 1 not in missing else []
        for b in range(nbx * nby):
            if b + 1 in missing:
                continue
            by, bx = b // nbx, b % nbx
            px = [(r, c) for r in range(by * bh, by * bh + bh) for c in range(bx * bw, bx * bw + bw)]
            suffix = {"COLD": "cold", "OBCOLD": "obcold", "SCCDOFFLINE": "sccd"}[method]
            fn = src / ("record_change_x%d_y%d_%s.npy" % (bx + 1, by + 1, suffix))
            if method == "SCCDOFFLINE":
                from pycold.utils import unindex_sccdpack
                with open(fn, "wb") as f:
                    for r, c in px:
                        pickle.dump(unindex_sccdpack(sccd_rec(menus[r, c], r * cols + c + 1)), f)
            else:
                part = [records(menus[r, c], r * cols + c + 1) for r, c in (px if order == "row" else px[::-1])]
                part = [p for p in part if len(p)]
                if not part:
                    continue        # nothing is saved for a block without records
                np.save(fn, np.hstack(part))
        y0, y1 = years
        out = base / "out"
        kw = dict(reccg_path=str(rec), reference_path=str(base / "ref.tif"), out_path=str(out), method=method, year_lowbound=y0,
                  year_uppbound=y1, yaml_path=str(base / "c.yaml"), coefs=", ".join(coefs) if coefs else None,
                  coefs_bands=", ".join(map(str, bands)))
        folder = out / {"COLD": "cold_maps", "OBCOLD": "obcold_maps", "SCCDOFFLINE": "sccd_maps"}[method]

        def one(choices):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            s = sched.Sched([lambda: ex.main.callback(**kw)] * nproc, choices)
            WORLD.start(s, nproc)
            try:
                s.run()
            except sched.Deadlock as e:
                fails.append(("deadlock", dict(schedule=list(choices), where=str(e)[:300])))
                return s
            for t in s.tasks:
                if t.error is not None:
                    fails.append(("error", dict(worker=t.idx, error=repr(t.error)[:300], schedule=list(choices))))
                    return s
            judge(choices)
            return s

        def image(name):
            p = folder / name
            if not p.exists():
                fails.append(("missing-map", name))
                return None
            d = gdal.Open(str(p))
            a = d.ReadAsArray()
            if a.shape != (rows, cols):
                fails.append(("map-size", dict(map=name, got=a.shape, want=(rows, cols))))
                return None
            if d.GetGeoTransform() != (100.0, 30.0, 0.0, 900.0, 0.0, -30.0):
                fails.append(("map-place", dict(map=name, got=d.GetGeoTransform())))
            return a

        def judge(choices):
            want = {}
            for (r, c), m in menus.items():
                for tb, kind in types_of(m, method):
                    d = datetime.date.fromordinal(tb)
                    if y0 <= d.year <= y1:
                        want.setdefault((r, c, d.year), []).append(kind * 1000 + d.timetuple().tm_yday)
            expected_files = set()
            for y in range(y0, y1 + 1):
                n = "%d_break_map_%s.tif" % (y, method)
                expected_files.add(n)
                a = image(n)
                if a is None:
                    continue
                for r in range(rows):
                    for c in range(cols):
                        st["pixels"] += 1
                        w = want.get((r, c, y), [NODATA])
                        if int(a[r, c]) not in w:
                            fails.append(("break-map", dict(year=y, pixel=(r, c), got=int(a[r, c]), want=w, schedule=list(choices))))
                if coefs:
                    for b in bands:
                        for f in coefs:
                            n = "%d_coefs_%s_%d_%s.tif" % (y, method, b, f)
                            expected_files.add(n)
                            a = image(n)
                            if a is None:
                                continue
                            for (r, c), m in menus.items():
                                st["pixels"] += 1
                                v = feature(m, r * cols + c + 1, b, f, y)
                                if abs(float(a[r, c]) - v) > 1e-5 * abs(v) + 1e-6:
                                    fails.append(("coefficient-map", dict(year=y, band=b, coef=f, pixel=(r, c), got=float(a[r, c]), want=v)))
            for n, pick in (("recent", max), ("first", min)):
                fn = "%s_disturbance_map_%s.tif" % (n, method)
                expected_files.add(fn)
                a = image(fn)
                if a is None:
                    continue
                for r in range(rows):
                    for c in range(cols):
                        # of several breaks in one year the map may show any
                        ys = [y for y in range(y0, y1 + 1) if any(v // 1000 == 1 for v in want.get((r, c, y), []))]
                        if any(len(v) > 1 for k, v in want.items() if k[:2] == (r, c)):
                            continue
                        w = pick(ys) if ys else 0
                        if int(a[r, c]) != w:
                            fails.append(("%s-map" % n, dict(pixel=(r, c), got=int(a[r, c]), want=w)))
            left = {p.name for p in folder.iterdir()} - expected_files
            if left:
                fails.append(("files-left", sorted(left)[:5]))
        if bound is None:       # the workers in order, and in reverse order
            one(())
            if nproc > 1 and not fails:
                one((nproc - 1,) + tuple(range(nproc - 2, 0, -1)))
            st["schedules"] = 1 + (nproc > 1)
        else:
            st["schedules"], complete = sched.explore(one, bound, visit=lambda s, p: len(fails) > 5)
        st["digests"].add(str(case))
        return fails[:6], st
    finally:
        shutil.rmtree(base, ignore_errors=True)


def layouts(limit):
    """(rows, cols, blocks in x, blocks in y), all that divide"""
    out = []
    for nbx, nby in itertools.product(range(1, 4), repeat=2):
        for bw, bh in itertools.product(range(1, 4), repeat=2):
            if nbx * bw * nby * bh <= limit:
                out.append((nby * bh, nbx * bw, nbx, nby))
    return out


def run(ctx):
    program()
    q = ctx.quick
    import pycold.utils    # noqa: F401
    M = NFEW
    methods = ("COLD", "OBCOLD", "SCCDOFFLINE")
    Y = (1999, 2003)
    D = lambda c: dict(zip(("layout(rows,cols,nbx,nby)", "workers", "method", "missing", "assignment", "years", "coefs", "bands", "bound", "order"), c))
    ls = layouts(24 if q else 54)
    rot = [tuple((i * 7 + s) % M for i in range(M)) for s in range(M)]
    cs = []
    for i, l in enumerate(ls):
        nb = l[2] * l[3]
        for m in methods:
            for n in sorted({1, 2, nb, nb + 1, 3}):
                for s in (rot[(i + n) % M::5] if q else rot):
                    cs.append((l, n, m, (), s, Y, (), (), None, "row" if n % 2 else "reversed"))
    run_cases(ctx, "layouts", case_run, cs, describe=D)
    # every pair of record lists in two pixels, of one block or of two
    cs = [((1, 2, nbx, 1), 1, m, (), (a, b), y, (), (), None, "row") for nbx in (1, 2) for m in methods for a in range(M) for b in range(M)
          for y in ((Y, (2001, 2001)) if q else (Y, (2001, 2001), (1990, 2010), (2000, 2001)))]
    run_cases(ctx, "records", case_run, cs, describe=D)
    n = len(MENUS) - NFEW
    cs = [((12, 15, 3, 2), 2, m, (), tuple(NFEW + (k + j) % n for j in range(180)), (2001, 2001), (), (), None, "row")
          for m in methods for k in range(0, n, 180)]
    run_cases(ctx, "limits", case_run, cs, describe=D)
    # missing blocks
    cs = []
    for l in ((2, 2, 2, 2), (2, 3, 3, 1), (3, 2, 1, 3), (4, 6, 3, 2)) if q else ((2, 2, 2, 2), (2, 3, 3, 1), (3, 2, 1, 3), (4, 6, 3, 2), (3, 4, 2, 3)):
        nb = l[2] * l[3]
        for k in range(nb + 1):
            for miss in itertools.combinations(range(1, nb + 1), k):
                for m in methods:
                    cs.append((l, 2, m, miss, rot[5], Y, () if m == "SCCDOFFLINE" or k % 2 else ("a1", "cv"), (3,), None, "row"))
    run_cases(ctx, "missing", case_run, cs, describe=D)
    # coefficients
    cs = [(l, n, m, (), rot[i % M], (2000, 2001), co, ba, None, o)
          for i, l in enumerate([(1, 2, 2, 1), (2, 3, 1, 1), (2, 4, 2, 2), (4, 2, 1, 2), (3, 3, 3, 1)])
          for n in (1, 3) for m in ("COLD", "OBCOLD") for co, ba in (((("a0", "c1", "cv", "rmse")), (0, 6)), (COEFS, (4,)), (("b3",), tuple(range(7))),
                                                                      (("cv", "a0"), (3, 1)), (("rmse", "a2", "b2"), (5,)))
          for o in ("row", "reversed")]
    run_cases(ctx, "coefs", case_run, cs, describe=D)
    # schedules
    cs = [(l, n, m, miss, rot[2], (2000, 2001), co, (3,), b, "row") for l, n, b in (((1, 2, 2, 1), 2, 3 if q else 6), ((2, 2, 2, 2), 3, 1 if q else 2),
                                                                                    ((1, 3, 3, 1), 4, 0 if q else 1))
          for m in methods for miss in ((), (2,)) for co in ((), ("a0",)) if not (co and m == "SCCDOFFLINE")]
    run_cases(ctx, "schedules", case_run, cs, describe=D, case_timeout=600)
    ctx.coverage["exhaustive"] = True
