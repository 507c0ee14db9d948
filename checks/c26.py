"""C26: stacking acquisitions with any number of workers."""
import datetime
import hashlib
import itertools
import json
import os
import shutil
import tarfile
import tempfile

from checks.c24 import CODE, L5, L8, OTHERS, FakeHDF, raw, scaled
from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """stateless model checking of the real stacking script: its workers run as threads under a controlled scheduler
that interposes on every file-system operation and wait; all schedules within a delay bound, all orders in which the
workers may find the folder listed, all small sets of acquisitions with date bounds, thresholds and worker counts, and
explicit-state exploration of the crash states, each followed by a restart"""
NOTE = """The files that must exist and their every pixel follow from the acquisitions' names, pixels and quality alone.
HDF access (HLS14) is replaced by arrays.  Scheduling points are the operations on paths several workers touch and one
changes.  At least one acquisition is present.  The log file is not compared."""
RULE = """A case is one configuration and its share of schedules, listings or crash states; each is one execution of the whole
script.  Non-trivial: something was stacked and there was a choice (several workers, or a crash); distinct by
(configuration, schedule or state)."""

SCRATCH = None
GEO = None
START = datetime.date(2000, 2, 27).toordinal()
CLS = {"a": (0, 1, 0, 1), "h": (0, 4, 1, 2), "q": (4, 0, 2, 4), "n": (4, 2, 4, 4), "s": (3, 4, 4, 3), "f": (255, 255, 255, 255), "m": (255, 0, 255, 255)}


def tif(path, arr, dtype, geo):
    from osgeo import gdal, osr
    gdal.UseExceptions()
    t = {"int16": gdal.GDT_Int16, "uint16": gdal.GDT_UInt16, "uint8": gdal.GDT_Byte}[dtype]
    ds = gdal.GetDriverByName("GTiff").Create(path, arr.shape[1], arr.shape[0], 1, t)
    ds.SetGeoTransform(geo)
    s = osr.SpatialReference()
    s.ImportFromEPSG(32614)
    ds.SetProjection(s.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(arr)
    ds.FlushCache()
    ds = None


def place(rows, cols):
    """a small image across a path boundary of the map in the package -> geotransform, path of every pixel"""
    global GEO
    import numpy as np
    from osgeo import gdal, osr
    if GEO is None:
        from importlib import resources
        with resources.path("pycold.imagetool", "singlepath_landsat_conus.tif") as p:
            d = gdal.Open(os.fspath(p))
            GEO = d.GetGeoTransform(), d.ReadAsArray()
    g, a = GEO
    u, l = osr.SpatialReference(), osr.SpatialReference()
    u.ImportFromEPSG(32614), l.ImportFromEPSG(4326)
    for s in (u, l):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    x, y, _ = osr.CoordinateTransformation(l, u).TransformPoint(g[0] + g[1] * 3028, g[3] + g[5] * 1750.5)
    geo = (x - 30.0 * (cols - cols // 2) - 4, 30.0, 0.0, y, 0.0, -30.0)
    back = osr.CoordinateTransformation(u, l)
    path = np.zeros((rows, cols), dtype=int)
    for r in range(rows):
        for c in range(cols):
            lon, lat, _ = back.TransformPoint(geo[0] + 30 * (c + .5), geo[3] - 30 * (r + .5))
            path[r, c] = a[int((lat - g[3]) / g[5]), int((lon - g[0]) / g[1])]
    return geo, path


def val(prod, band, r, c, d):
    return raw(prod, band, r, c) + 11 * (d - START)


def sources(root, prod, acqs, nby, nbx, bh, bw):
    """source folder -> what is there: list of (name prefix, suffix, ordinal, quality, 8-band image)"""
    import numpy as np
    src = os.path.join(root, "h025v007")
    os.mkdir(src)
    rows, cols = nby * bh, nbx * bw
    geo, path = place(rows, cols)
    out = []
    fake = {}
    for n, (day, sat, cls) in enumerate(acqs):
        o = START + day
        d = datetime.date.fromordinal(o)
        classes = np.array([[CLS[cls][(r * cols + c) % 4] for c in range(cols)] for r in range(rows)])
        kind = "hls" if prod[:3] == "HLS" else "c2" if "C2" in prod else "c1"
        q = np.vectorize(CODE[kind].get)(classes)
        full = {"ARD": "ARD-", "ARD-C2": "ARDC2-", "C2": "C2-"}.get(prod, "") + {"L": "8", "S": "5"}[sat]
        if prod.startswith("HLS"):
            full = prod + "-" + {"L": "L30", "S": "S30"}[sat]
        img = lambda b: np.array([[val(full, b, r, c, o) for c in range(cols)] for r in range(rows)])
        doy = d.timetuple().tm_yday
        keep = None
        if prod == "HLS":
            sensor = full[4:]
            folder = "HLS.%s.T18TYM.%04d%03dT153612.v2.%d" % (sensor, d.year, doy, n)
            os.mkdir(os.path.join(src, folder))
            tif(os.path.join(src, folder, folder + ".Fmask.tif"), q.astype(np.uint8), "uint8", geo)
            bands = L8[:6] + [None] if sat == "L" else ["2", "3", "4", "8A", "11", "12", None]
            for b in bands[:6]:
                tif(os.path.join(src, folder, "%s.B%s.tif" % (folder, b.zfill(2))), img(b).astype(np.int16), "int16", geo)
            prefix = sensor + "T18TYM%04d%03d" % (d.year, doy)
        elif prod == "HLS14":
            sensor = full[6:]
            os.makedirs(os.path.join(src, "%d" % n))
            name = os.path.join(src, "%d" % n, "HLS.%s.T18TYM.%04d%03d.v1.4.hdf" % (sensor, d.year, doy))
            order = (["1", "2", "3", "4", "5", "6", "7", "9", "10", "11"] if sat == "L" else
                     ["1", "2", "3", "4", "5", "6", "7", "8", "8A", "9", "10", "11", "12"])
            open(name, "w").close()
            fake[name] = [img(b).astype(np.int16) for b in order] + [q.astype(np.uint8)]
            bands = L8[:6] + [None] if sat == "L" else ["2", "3", "4", "8A", "11", "12", None]
            prefix = sensor + "T18TYM%04d%03d" % (d.year, doy)
        elif prod.startswith("ARD"):
            c2 = "C2" in prod
            sid = {"L": "LC08", "S": "LT05"}[sat]
            base = "%s_CU_025007_%s_20210101_%s" % (sid, d.strftime("%Y%m%d"), "02" if c2 else "C01_V01")
            folder = base + "_SR"
            work = os.path.join(root, "work%d" % n)
            os.mkdir(work)
            sr, bt = [], []
            t = "uint16" if c2 else "int16"
            fmt = "%s_B%s.TIF" if c2 else "%sB%s.tif"
            for b in ["1", "2", "3", "4", "5", "6", "7"]:
                sr.append(fmt % (folder, b))
                tif(os.path.join(work, sr[-1]), img(b).astype(t), t, geo)
            sr.append(base + ("_QA_PIXEL.TIF" if c2 else "_PIXELQA.tif"))
            tif(os.path.join(work, sr[-1]), q.astype(np.uint16), "uint16", geo)
            sr.append(base + ".xml")
            wrs = int(path[0, 0]) if n % 2 == 0 else int(path[0, -1])
            keep = path == wrs
            with open(os.path.join(work, sr[-1]), "w") as f:
                if c2:
                    f.write("<M><SCENE_METADATA><IMAGE_ATTRIBUTES><A>0</A><B>0</B><C>0</C><WRS_PATH>%d</WRS_PATH></IMAGE_ATTRIBUTES></SCENE_METADATA></M>" % wrs)
                else:
                    f.write('<m xmlns="https://landsat.usgs.gov/ard/v1"><scene_metadata><global_metadata><wrs path="%d" row="32"/></global_metadata></scene_metadata></m>' % wrs)
            tb = {"L": "10", "S": "6"}[sat]
            bt.append(("%s_BT_B%s.TIF" if c2 else "%s_BTB%s.tif") % (base, tb))
            tif(os.path.join(work, bt[-1]), img(tb).astype(t), t, geo)
            for nm, fs in ((folder, sr), (base + "_BT", bt)):
                with tarfile.open(os.path.join(src, nm + ".tar"), "w") as tf:
                    for x in fs:
                        tf.add(os.path.join(work, x), arcname=x)
            shutil.rmtree(work)
            bands = L8 if sat == "L" else L5
            prefix = {"L": "LC8", "S": "LT5"}[sat] + "025007%04d%03d" % (d.year, doy)
        else:
            sid = {"L": "LC08", "S": "LT05"}[sat]
            folder = "%s_L2SP_014032_%s_20210101_02_T1" % (sid, d.strftime("%Y%m%d"))
            work = os.path.join(root, "work%d" % n)
            os.mkdir(work)
            fs = [folder + "_QA_PIXEL.TIF"]
            tif(os.path.join(work, fs[0]), q.astype(np.uint16), "uint16", geo)
            for b in ["1", "2", "3", "4", "5", "6", "7"]:
                fs.append("%s_SR_B%s.TIF" % (folder, b))
                tif(os.path.join(work, fs[-1]), img(b).astype(np.uint16), "uint16", geo)
            tb = {"L": "10", "S": "6"}[sat]
            fs.append("%s_ST_B%s.TIF" % (folder, tb))
            tif(os.path.join(work, fs[-1]), img(tb).astype(np.uint16), "uint16", geo)
            with tarfile.open(os.path.join(src, folder + ".tar"), "w") as tf:
                for x in fs:
                    tf.add(os.path.join(work, x), arcname=x)
            shutil.rmtree(work)
            bands = L8 if sat == "L" else L5
            prefix = {"L": "LC8", "S": "LT5"}[sat] + "014032%04d%03d" % (d.year, doy)
        full8 = np.array([[[scaled(full, k, val(full, b, r, c, o)) if b else 0 for k, b in enumerate(bands)] + [classes[r, c]] for c in range(cols)]
                          for r in range(rows)], dtype=float)
        out.append(dict(prefix=prefix, o=o, classes=classes, image=full8, keep=keep))
    y = os.path.join(root, "config.yaml")
    with open(y, "w") as f:
        f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))
    shp = os.path.join(root, "tile.geojson")
    x0, y0, x1, y1 = geo[0], geo[3] - 30 * rows, geo[0] + 30 * cols, geo[3]
    with open(shp, "w") as f:
        json.dump(dict(type="FeatureCollection", features=[
            dict(type="Feature", properties=dict(id=i), geometry=dict(type="Polygon", coordinates=[[[x0 + 9000 * (3 - i), y0], [x1 + 9000 * (3 - i), y0],
                 [x1 + 9000 * (3 - i), y1], [x0 + 9000 * (3 - i), y1], [x0 + 9000 * (3 - i), y0]]])) for i in (2, 3)]), f)
    return dict(src=src, yaml=y, shp=shp, acqs=out, fake=fake, rows=rows, cols=cols, nbx=nbx, nby=nby, bh=bh, bw=bw, prod=prod)


def expected(s, partition, thr, lo, hi, n, single, hpc):
    """{file: 8-band array or text or None}"""
    import numpy as np
    want = {}
    lo_o = datetime.date.fromisoformat(lo).toordinal() if lo else 0
    hi_o = datetime.date.fromisoformat(hi).toordinal() if hi else 999999
    for a in s["acqs"]:
        if not lo_o <= a["o"] <= hi_o:
            continue
        if thr > 0:
            valid = int((a["classes"] != 255).sum())
            good = int(np.isin(a["classes"], (0, 1)).sum())
            if valid == 0 or not good / valid > thr:
                continue
        img = a["image"].copy()
        if single and a["keep"] is not None:
            img[:, :, 7] = np.where(a["keep"], img[:, :, 7], 255)
        if not partition:
            want[a["prefix"]] = img
            continue
        for i in range(s["nby"]):
            for j in range(s["nbx"]):
                b = img[i * s["bh"]:(i + 1) * s["bh"], j * s["bw"]:(j + 1) * s["bw"]]
                if np.isin(b[:, :, 7], (0, 1, 3)).any():
                    want["block_x%d_y%d/%s" % (j + 1, i + 1, a["prefix"])] = b
    os_ = [a["o"] for a in s["acqs"]]
    want["starting_last_dates.txt"] = "%d\n%d\n" % (max(min(os_), lo_o), min(max(os_), hi_o))
    for r in range(n):
        want["rank%d_finished.txt" % (r + 1)] = ""
    if s["prod"].startswith("ARD") and hpc:
        want["singlepath_landsat_tile.tif"] = None
    return want


def compare(s, want, got, partition):
    """got: {relative path below out: content}"""
    import io
    import numpy as np
    left = set(want)
    for f in sorted(got):
        if f.endswith("/"):
            if not (partition and f.startswith("block_")):
                return "superfluous-folder", dict(folder=f)
            continue
        k = f if f in want else next((w for w in want if isinstance(want[w], np.ndarray) and f.startswith(w) and f.endswith(".npy")), None)
        if k is None or k not in left:
            return "superfluous-file", dict(file=f)
        left.discard(k)
        w = want[k]
        if isinstance(w, str):
            if got[f].decode() != w:
                return "text", dict(file=f, want=w, got=got[f].decode())
        elif w is not None:
            try:
                a = np.load(io.BytesIO(got[f]))
            except Exception as e:
                return "unreadable", dict(file=f, error=repr(e))
            c2 = "C2" in s["prod"]
            if a.shape != w.shape or a.dtype != np.int16 or (np.abs(a - w) > (1 if c2 else 0)).any() or (a[:, :, 7] != w[:, :, 7]).any():
                return "pixels", dict(file=f, want=w.tolist(), got=a.tolist())
    if left:
        return "missing", dict(files=sorted(left)[:5])
    return None


def worker(st, s, out, rank, n, partition, thr, lo, hi, single, hpc):
    def f():
        st["pa"].main.callback(source_dir=s["src"], out_dir=out, clear_threshold=thr, single_path=single, rank=rank, n_cores=n, is_partition=partition,
                               yaml_path=s["yaml"], hpc=hpc, low_date_bound=lo, upp_date_bound=hi, collection=s["prod"], shapefile_path=s["shp"], id=3)
    return f


class FakeGdal:
    """HDF access replaced by arrays, everything else real"""

    def __init__(self, real):
        self.real, self.files = real, {}

    def __getattr__(self, k):
        return getattr(self.real, k)

    def Open(self, name, *a):
        key = name if isinstance(name, str) else name[0]
        if key in self.files:
            arrs = self.files[key]

            class D:
                def GetSubDatasets(self):
                    return [((key, i), "") for i in range(len(arrs))]

                def ReadAsArray(self):
                    return arrs[name[1]].copy()
            return D()
        return self.real.Open(name, *a)


def init():
    import logging
    import sys
    import warnings
    from vlib import build
    if str(build.build()) not in sys.path:
        sys.path.insert(0, str(build.build()))
    warnings.simplefilter("ignore")
    os.chdir(SCRATCH)
    logging.disable(logging.CRITICAL)
    logging.getLogger().addHandler(logging.NullHandler())
    from osgeo import gdal
    gdal.UseExceptions()
    from pycold.imagetool import prepare_ard as pa
    pa.gdal = FakeGdal(pa.gdal)
    sys.stdout = open(os.devnull, "w")
    return dict(pa=pa)


class Runs:
    """executions of one configuration"""

    def __init__(self, case, st):
        from vlib import fsshim
        fsshim.install()
        self.f = fsshim
        self.st = st
        (self.prod, lay, acqs, self.partition, self.thr, self.lo, self.hi, self.single, self.hpc, self.n) = case
        self.root = tempfile.mkdtemp(prefix="s-", dir=SCRATCH)
        self.s = sources(self.root, self.prod, acqs, *lay)
        st["pa"].gdal.files = self.s["fake"]
        self.area = os.path.join(self.root, "run")
        self.out = os.path.join(self.area, "out")
        self.want = expected(self.s, self.partition, self.thr, self.lo, self.hi, self.n, self.single, self.hpc)
        self.stacked = sum(1 for k in self.want if "/" in k or k[0] in "LS")
        self.shared = set()
        self.cnt = dict(runs=0, transitions=0, waits=0)

    def close(self):
        shutil.rmtree(self.root)

    def one(self, choices=(), order=None, state=None, snaps=None, listing=None):
        from checks.c19 import digest, restore
        os.mkdir(self.area)
        if state:
            restore(self.area, state)
        on = None
        if snaps is not None:
            def on():
                t = self.f.tree(self.area)
                snaps.setdefault(digest(t), t)
        w = self.f.World(self.area, [worker(self.st, self.s, self.out, r + 1, self.n, self.partition, self.thr, self.lo, self.hi, self.single, self.hpc)
                                     for r in range(self.n)], choices, frozenset(self.shared), order=order, halves=snaps is not None, on_change=on, listing=listing)
        try:
            w.dead = None
            try:
                w.run()
            except self.f.Deadlock as e:
                w.dead = str(e)
            w.all = self.f.tree(self.out) if os.path.isdir(self.out) else {}
        finally:
            shutil.rmtree(self.area)
        w.s.w = w
        self.cnt["runs"] += 1
        self.cnt["transitions"] += w.s.steps
        self.cnt["waits"] += w.naps
        return w

    def judge(self, w, **info):
        bad = []
        if w.dead:
            bad.append(("never-ends", dict(waiting=w.dead)))
        for t in w.s.tasks:
            if t.error is not None:
                bad.append(("worker-fails", dict(worker=w.order[t.idx] + 1, error=repr(t.error)[:300])))
        for r, k, by in w.torn_reads:
            bad.append(("incomplete-file-read", dict(reader=r + 1, file=k, writer=by + 1)))
        if not bad:
            r = compare(self.s, self.want, w.all, self.partition)
            if r:
                bad.append(r)
        return [(k, dict(d, **info)) for k, d in bad]

    def schedules(self, bound, order, part=(0, 1), state=None, visit=None):
        """all schedules within the bound, the shared paths to a fixed point"""
        from vlib.sched import explore_delays
        while True:
            grown, seen = [], []
            keep = dict(self.cnt)

            def mk(prefix):
                w = self.one(prefix, order, state)
                new = w.conflicts() - self.shared
                if new:
                    self.shared |= new
                    grown.append(1)
                return w.s

            def see(s, prefix):
                if grown:
                    return True
                seen.append(prefix)
                return visit(s.w, prefix)
            explore_delays(mk, bound, visit=see, part=part)
            if not grown:
                return seen
            self.cnt.update(keep)


def config(case, st):
    cfg, order = case
    r = Runs(cfg, st)
    try:
        w = r.one(order=order)
        return r.judge(w), (case if r.stacked else None)
    finally:
        r.close()


def listings(case, st):
    """every order in which each worker may find the source folder listed"""
    cfg, = case
    r = Runs(cfg, st)
    fails, digs = [], set()
    try:
        names = [x for x in os.listdir(r.s["src"])]
        perms = list(itertools.permutations(range(len(names))))
        for ps in itertools.product(perms, repeat=cfg[9]):
            def listing(me, path, found):
                if path.rstrip("/") == r.s["src"]:
                    return [found[i] for i in ps[me]]
                return found
            f = r.judge(r.one(listing=listing), listings=ps)
            fails += f
            if len(fails) > 2:
                break
            digs.add(hash((cfg, ps)))
    finally:
        r.close()
    return fails, dict(digests=digs if r.stacked and cfg[9] > 1 else set(), **r.cnt)


def sched(case, st):
    cfg, order, bound, part = case
    r = Runs(cfg, st)
    fails, digs = [], set()
    try:
        def visit(w, prefix):
            f = r.judge(w, schedule=list(prefix), log=w.s.log[-30:])
            fails.extend(f)
            if prefix:
                digs.add(hash((cfg, order, prefix)))
            return len(fails) > 2
        n = r.schedules(bound, order, part, visit=visit)
        r.cnt["schedules"] = len(n)
        r.cnt["shared_paths"] = len(r.shared)
    finally:
        r.close()
    return fails, dict(digests=digs, **r.cnt)


def crash(case, st):
    from checks.c19 import digest
    cfg, order, walk, bound, every, part = case
    r = Runs(cfg, st)
    fails, digs = [], set()
    try:
        from vlib.sched import explore_delays
        states = {}
        if walk:
            r.schedules(0, order, visit=lambda w, p: False)
        explore_delays(lambda p: r.one(p, order, snaps=states).s, walk)
        keys = sorted(states, key=lambda d: (len(states[d]), sum(map(len, states[d].values())), d))[part[0]::part[1]]
        fwd = tuple(range(cfg[9]))
        restarts = 0
        for i, d in enumerate(keys):
            for o in ((fwd, fwd[::-1]) if len(fwd) > 1 else (fwd,)):
                def visit(w, prefix):
                    nonlocal restarts
                    restarts += 1
                    f = r.judge(w, state=sorted(states[d])[-6:], state_id=d.hex(), schedule=list(prefix), log=w.s.log[-30:])
                    fails.extend(f)
                    if len(states[d]) > 1:
                        digs.add(hash((cfg, d, o, prefix)))
                    return len(fails) > 2
                r.schedules(bound if i % every == 0 else 0, o, state=states[d], visit=visit)
            if fails:
                break
        r.cnt.update(crash_states=len(keys), restarts=restarts)
    finally:
        r.close()
    return fails, dict(digests=digs, **r.cnt)


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    fwd, rev = lambda n: tuple(range(n)), lambda n: tuple(range(n))[::-1]
    L = (1, 2, 2, 1)        # blocks y, x; block height, width
    L4 = (1, 2, 1, 2)
    day = lambda k: datetime.date.fromordinal(START + k).isoformat()
    cs = []
    pool = [(0, "L", "a"), (1, "S", "h"), (2, "L", "q"), (2, "S", "a"), (4, "S", "n"), (5, "L", "s")]
    bounds = [(None, None), (day(1), None), (None, day(2)), (day(2), day(2)), (day(1), day(4)), (day(5), None), (None, day(-3)), (day(9), None)]
    # every set of acquisitions, with bounds, thresholds, worker counts
    for k in range(1, 4 if q else 5):
        for acqs in itertools.combinations(pool, k):
            for lo, hi in bounds if k == 3 or not q else bounds[:5]:
                for thr in (0.0, 0.3):
                    n = 1 + (k + len(cs)) % 4
                    cs.append((("HLS", L, acqs, (len(cs) // 3) % 4 != 0, thr, lo, hi, True, True, n), fwd(n) if len(cs) % 2 else rev(n)))
    acqs = tuple(pool[:3]) + (pool[4],)
    for n in range(1, 7):
        for o in itertools.permutations(range(n)) if n < 4 else (fwd(n), rev(n)):
            for thr in (0.0, 0.25, 0.5, 0.99):
                cs.append((("HLS", L, acqs, True, thr, None, None, True, True, n), o))
    # every number of images against every number of workers
    clear = [(k, "LS"[k % 2], "aqh"[k % 3]) for k in range(9)]
    for prod in ("HLS", "HLS14", "ARD", "ARD-C2", "C2"):
        for k in range(1, (8 if prod == "HLS" else 6) if q else 10):
            for n in range(1, (6 if prod == "HLS" else 4) if q else 8):
                cs.append(((prod, L if prod[:3] == "HLS" else L4, tuple(clear[:k]), True, 0.0, None, None, True, True, n),
                           fwd(n) if (k + n) % 2 else rev(n)))
    for prod in ("ARD", "ARD-C2", "C2", "HLS14"):
        for n in range(1, 5):
            for part in (True, False):
                for thr, (lo, hi) in itertools.product((0.0, 0.3), bounds[:4] if q else bounds):
                    cs.append(((prod, L4, acqs, part, thr, lo, hi, prod != "ARD" or n != 3, True, n), rev(n) if n % 2 else fwd(n)))
        for single, hpc in ((False, True), (False, False)):
            cs.append(((prod, L4, acqs, True, 0.0, None, None, single, hpc, 2), (0, 1)))
    run_cases(ctx, "configurations", config, cs, init=init, case_timeout=120)
    cs = []
    for prod, k, n in (("HLS", 3, 2), ("HLS", 2, 3), ("HLS14", 3, 2), ("ARD", 1, 2), ("C2", 3, 2)) + (() if q else (("HLS", 4, 2), ("HLS", 3, 3), ("HLS14", 3, 3), ("ARD-C2", 1, 3))):
        cs.append(((prod, L, tuple(pool[:k]), True, 0.0, None, None, False, False, n),))
    run_cases(ctx, "listings", listings, cs, init=init, case_timeout=3000)
    cs = []
    for prod, lay in (("HLS", L), ("ARD", L4), ("C2", L), ("HLS14", L)):
        for n in (2, 3) if q else (2, 3, 4):
            for o in (fwd(n), rev(n)):
                b = 2 if prod == "HLS" else 1
                b += 0 if q else 1
                m = 4 if b > 1 else 1
                for i in range(m):
                    cs.append(((prod, lay, tuple(pool[:3]), True, 0.0, None, day(2), True, True, n), o, b, (i, m)))
    run_cases(ctx, "schedules", sched, cs, init=init, case_timeout=850 if q else 3000)
    cs = []
    for prod, lay, k in (("HLS", L, 3), ("ARD", L4, 2), ("ARD-C2", L4, 2), ("C2", L, 2), ("HLS14", L, 3)):
        for n in (1, 2, 3):
            for o in (fwd(n), rev(n)) if n > 1 else (fwd(n),):
                m = 1 if prod[:3] == "HLS" else 4
                if q and (n == 3 and (o == fwd(n) or m == 4) or prod == "ARD-C2" and o != fwd(n)):
                    continue
                walk = 0 if n == 1 or q and (m == 4 or n == 3) else 1
                # (delays during the restart: for every 30th state in the quick tier)
                delay = n == 2 and o == fwd(n) and prod in ("HLS", "ARD") if q else n > 1
                for i in range(m):
                    cs.append(((prod, lay, tuple(pool[:k]), True, 0.3, None, None, True, True, n), o, walk, int(delay), 30 if q else 2, (i, m)))
    run_cases(ctx, "crashes", crash, cs, init=init, case_timeout=850 if q else 3000)
    ctx.assumptions.append("a crash stops all workers; what was written before it stays")
