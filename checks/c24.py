"""C24: cutting acquisitions into blocks, for every supported product."""
import datetime
import itertools
import logging
import os
import shutil
import tarfile
import tempfile

from checks import c23
from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit enumeration of all small layouts and all quality patterns of small images for every product, the
real stacking functions run on real image files and every pixel of every written block compared"""
NOTE = """Images are written as GeoTIFF (tar archives for ARD products) in a scratch folder; for the HDF product the
dataset access is replaced by arrays.  Exhaustive within the stated layouts, patterns, thresholds and date bounds."""
RULE = """A case is (product, layout, quality pattern, partition flag, clear threshold, date bounds).  The block files
written must be exactly those with a clear, water or snow pixel, each holding the block's pixels, seven bands in the
documented order and the decoded quality.  Non-trivial: at least one block written; distinct by case."""

SCRATCH = None
CLASSES = (0, 1, 2, 3, 4, 255)  # clear water shadow snow cloud fill
CODE = {  # raw quality value of each class
    "c1": {0: 1 << 1, 1: 1 << 2, 2: 1 << 3, 3: 1 << 4, 4: 1 << 5, 255: 1},
    "c2": {0: 1 << 6, 1: 1 << 7, 2: 1 << 4, 3: 1 << 5, 4: 1 << 3, 255: 1},
    "hls": {0: 0, 1: 1 << 5, 2: 1 << 3, 3: 1 << 4, 4: 1 << 1, 255: 255},
}
# product: (qa kind, source bands in documented output order b g r n s1 s2 [t])
L8 = ["2", "3", "4", "5", "6", "7", "10"]
L5 = ["1", "2", "3", "4", "5", "7", "6"]
OTHERS = [str(k) for k in range(1, 13)] + ["8A"]


def lg():
    l = logging.getLogger("quiet")
    l.disabled = True
    return l


def raw(prod, band, r, c):
    """source value of a band: identifies product band, row and column"""
    b = OTHERS.index(band)
    if prod in ("ARDC2-8", "ARDC2-5", "C2-8", "C2-5"):
        return 9000 + 1500 * b + 100 * r + 7 * c
    return 100 + 700 * b + 40 * r + 3 * c


def scaled(prod, k, v):
    """documented output value of output band k"""
    if prod in ("ARDC2-8", "ARDC2-5", "C2-8", "C2-5"):
        return 10 * (v * 0.00341802 + 149) if k == 6 else 10000 * (v * 2.75e-05 - 0.2)
    return v


def tif(path, arr, dtype, geo=None):
    from osgeo import gdal, osr
    gdal.UseExceptions()
    drv = gdal.GetDriverByName("GTiff")
    ds = drv.Create(path, arr.shape[1], arr.shape[0], 1, {"int16": gdal.GDT_Int16, "uint16": gdal.GDT_UInt16, "uint8": gdal.GDT_Byte}[dtype])
    if geo:
        ds.SetGeoTransform(geo)
        s = osr.SpatialReference()
        s.ImportFromEPSG(32618)
        ds.SetProjection(s.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(arr)
    ds.FlushCache()
    ds = None


class FakeHDF:
    """stand-in for gdal in the HDF product"""
    GA_ReadOnly = 0

    def __init__(self, arrays):
        self.arrays = arrays

    def Open(self, name, *a):
        outer = self

        class D:
            def GetSubDatasets(self):
                return [(i, "") for i in range(len(outer.arrays))]

            def ReadAsArray(self):
                return outer.arrays[name].copy()
        return D()


def one(case):
    prod, nbx, nby, bw, bh, qa, partition, thr, lo, hi, path = case
    import numpy as np
    from pycold.common import DatasetInfo
    from pycold.imagetool import prepare_ard as pa
    root = tempfile.mkdtemp(prefix="im-", dir=SCRATCH)
    try:
        rows, cols = nby * bh, nbx * bw
        ds = DatasetInfo(rows, cols, nbx, nby)
        src, out, tmp = (os.path.join(root, d) for d in ("src", "out", "tmp1"))
        for d in (src, out, tmp):
            os.mkdir(d)
        for i in range(nby):
            for j in range(nbx):
                os.mkdir(os.path.join(out, "block_x%d_y%d" % (j + 1, i + 1)))
        classes = np.array([[CLASSES[qa[(r * cols + c) % len(qa)]] for c in range(cols)] for r in range(rows)])
        kind = "hls" if prod[:3] == "HLS" else "c2" if "C2" in prod else "c1"
        q = np.vectorize(CODE[kind].get)(classes)
        img = lambda b: np.array([[raw(prod, b, r, c) for c in range(cols)] for r in range(rows)])
        y, doy = 2000, 60
        kw = dict(is_partition=partition, clear_threshold=thr, low_date_bound=lo, upp_date_bound=hi)
        bands = L8 if prod in ("HLS-L30", "HLS14-L30", "ARD-8", "ARDC2-8", "C2-8") else L5
        if prod in ("HLS-S30", "HLS14-S30"):
            bands = ["2", "3", "4", "8A", "11", "12", None]
        elif prod in ("HLS-L30", "HLS14-L30"):
            bands = L8[:6] + [None]
        if prod.startswith("HLS-"):
            sensor = prod[4:]
            folder = "HLS.%s.T18TYM.%04d%03dT153612.v2.0" % (sensor, y, doy)
            os.mkdir(os.path.join(src, folder))
            tif(os.path.join(src, folder, folder + ".Fmask.tif"), q.astype(np.uint8), "uint8")
            for b in OTHERS:
                tif(os.path.join(src, folder, "%s.B%s.tif" % (folder, b.zfill(2))), img(b).astype(np.int16), "int16")
            pa.single_image_stacking_hls(src, out, lg(), ds, folder, **kw)
            prefix = sensor + "T18TYM" + "2000060"
        elif prod.startswith("HLS14-"):
            sensor = prod[6:]
            name = os.path.join(src, "HLS.%s.T18TYM.%04d%03d.v1.4.hdf" % (sensor, y, doy))
            # order of the datasets in the files: L30 B01..B07,B09,B10,B11,QA ; S30 B01..B08,B8A,B09..B12,QA
            order = (["1", "2", "3", "4", "5", "6", "7", "9", "10", "11"] if sensor == "L30" else
                     ["1", "2", "3", "4", "5", "6", "7", "8", "8A", "9", "10", "11", "12"])
            arrs = [img(b).astype(np.int16) for b in order] + [q.astype(np.uint8)]
            fake = FakeHDF(arrs)
            fake_open = fake.Open
            fake.Open = lambda n, *a: fake_open(n, *a)
            keep = pa.gdal
            pa.gdal = fake
            try:
                pa.single_image_stacking_hls14(out, lg(), ds, name, **kw)
            finally:
                pa.gdal = keep
            prefix = sensor + "T18TYM" + "2000060"
        elif prod.startswith("ARD"):
            c2 = "C2" in prod
            sat = prod[-1]
            sid = {"8": "LC08", "5": "LT05"}[sat]
            base = "%s_CU_025007_20000229_20210101_%s" % (sid, "02" if c2 else "C01_V01")
            folder = base + "_SR"
            work = os.path.join(root, "work")
            os.mkdir(work)
            sr, bt = [], []
            t = "uint16" if c2 else "int16"
            fmt = "%s_B%s.TIF" if c2 else "%sB%s.tif"
            for b in ["1", "2", "3", "4", "5", "6", "7"]:
                sr.append(fmt % (folder, b))
                tif(os.path.join(work, sr[-1]), img(b).astype(t), t)
            sr.append(base + ("_QA_PIXEL.TIF" if c2 else "_PIXELQA.tif"))
            tif(os.path.join(work, sr[-1]), q.astype(np.uint16), "uint16")
            sr.append(base + ".xml")
            with open(os.path.join(work, sr[-1]), "w") as f:
                if c2:
                    f.write("<M><SCENE_METADATA><IMAGE_ATTRIBUTES><A>0</A><B>0</B><C>0</C><WRS_PATH>14</WRS_PATH></IMAGE_ATTRIBUTES></SCENE_METADATA></M>")
                else:
                    f.write('<m xmlns="https://landsat.usgs.gov/ard/v1"><scene_metadata><global_metadata><wrs path="14" row="32"/></global_metadata></scene_metadata></m>')
            tb = {"8": "10", "5": "6"}[sat]
            bt.append(("%s_BT_B%s.TIF" if c2 else "%s_BTB%s.tif") % (base, tb))
            tif(os.path.join(work, bt[-1]), img(tb).astype(t), t)
            for n, fs in ((folder, sr), (base + "_BT", bt)):
                with tarfile.open(os.path.join(src, n + ".tar"), "w") as tf:
                    for x in fs:
                        tf.add(os.path.join(work, x), arcname=x)
            parr = None
            if path:
                parr = np.array([[14 if (r + c) % 2 == 0 else 15 for c in range(cols)] for r in range(rows)])
            pa.single_image_stacking(tmp, src, out, folder, thr, parr, lg(), ds, is_partition=partition,
                                     low_date_bound=lo, upp_date_bound=hi, b_c2=c2)
            prefix = {"8": "LC8", "5": "LT5"}[sat] + "025007" + "2000060"
            if lo is None and hi is None and os.listdir(tmp):
                return [("unpacked-files-left", os.listdir(tmp))], case
            if path:
                thr_classes = classes.copy()
                classes = np.where(parr == 14, classes, 255)
        else:
            sat = prod[-1]
            sid = {"8": "LC08", "5": "LT05"}[sat]
            folder = "%s_L2SP_014032_20000229_20210101_02_T1" % sid
            work = os.path.join(root, "work")
            os.mkdir(work)
            geo = (600000.0, 30.0, 0.0, 4500000.0, 0.0, -30.0)
            fs = [folder + "_QA_PIXEL.TIF"]
            tif(os.path.join(work, fs[0]), q.astype(np.uint16), "uint16", geo)
            for b in ["1", "2", "3", "4", "5", "6", "7"]:
                fs.append("%s_SR_B%s.TIF" % (folder, b))
                tif(os.path.join(work, fs[-1]), img(b).astype(np.uint16), "uint16", geo)
            tb = {"8": "10", "5": "6"}[sat]
            fs.append("%s_ST_B%s.TIF" % (folder, tb))
            tif(os.path.join(work, fs[-1]), img(tb).astype(np.uint16), "uint16", geo)
            with tarfile.open(os.path.join(src, folder + ".tar"), "w") as tf:
                for x in fs:
                    tf.add(os.path.join(work, x), arcname=x)
            bounds = [geo[0], geo[3] - 30 * rows, geo[0] + 30 * cols, geo[3]]
            pa.single_image_stacking_collection2(tmp, src, out, folder, thr, lg(), ds, bounds, is_partition=partition,
                                                 low_date_bound=lo, upp_date_bound=hi)
            prefix = {"8": "LC8", "5": "LT5"}[sat] + "014032" + "2000060"
        # ------------------------------------------------------------------ expected
        want_q = classes
        d = datetime.date(2000, 2, 29)
        accept = (lo is None or d >= datetime.date.fromisoformat(lo)) and (hi is None or d <= datetime.date.fromisoformat(hi))
        if thr > 0:
            base_q = thr_classes if path and prod.startswith("ARD") else classes
            valid = int((base_q != 255).sum())
            good = int(((base_q == 0) | (base_q == 1)).sum())
            accept = accept and valid > 0 and good / valid > thr
        full = np.array([[[scaled(prod, k, raw(prod, b, r, c)) if b else 0 for k, b in enumerate(bands)] + [want_q[r, c]]
                          for c in range(cols)] for r in range(rows)], dtype=float)
        written = 0
        if partition:
            back = np.zeros((rows, cols, 8))
            for i in range(nby):
                for j in range(nbx):
                    blk = full[i * bh:(i + 1) * bh, j * bw:(j + 1) * bw]
                    files = os.listdir(os.path.join(out, "block_x%d_y%d" % (j + 1, i + 1)))
                    keep = accept and bool(np.isin(blk[:, :, 7], (0, 1, 3)).any())
                    if len(files) != int(keep):
                        return [("block-files", dict(block=(j + 1, i + 1), want=int(keep), got=files))], case
                    if not keep:
                        continue
                    written += 1
                    if not files[0].startswith(prefix) or not files[0].endswith(".npy"):
                        return [("file-name", dict(want=prefix, got=files[0]))], case
                    a = np.load(os.path.join(out, "block_x%d_y%d" % (j + 1, i + 1), files[0]))
                    if a.shape != blk.shape or a.dtype != np.int16:
                        return [("block-shape", dict(want=blk.shape, got=a.shape, dtype=str(a.dtype)))], case
                    bad = np.argwhere(np.abs(a - blk) > 1)
                    if len(bad) or not (a[:, :, 7] == blk[:, :, 7]).all() or (not "C2" in prod and not (a == blk).all()):
                        w = tuple(bad[0]) if len(bad) else tuple(np.argwhere(np.round(a - blk) != 0)[0])
                        return [("pixel", dict(block=(j + 1, i + 1), at=w, want=float(blk[w]), got=int(a[w])))], case
        else:
            files = [f for f in os.listdir(out) if not f.startswith("block_")]
            if len(files) != int(accept):
                return [("image-files", dict(want=int(accept), got=files))], case
            if accept:
                written = 1
                a = np.load(os.path.join(out, files[0]))
                if not files[0].startswith(prefix) or a.shape != full.shape or (np.abs(a - full) > 1).any() or \
                        not (a[:, :, 7] == full[:, :, 7]).all():
                    return [("image", dict(name=files[0], shape=a.shape))], case
        return [], (case if written else None)
    finally:
        shutil.rmtree(root)


PRODUCTS = ["HLS-L30", "HLS-S30", "HLS14-L30", "HLS14-S30", "ARD-5", "ARD-8", "ARDC2-5", "ARDC2-8", "C2-5", "C2-8"]


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    d = lambda c: dict(zip(("product", "n_block_x", "n_block_y", "block_width", "block_height", "quality", "partition", "threshold", "low", "high", "single_path"), c))
    m = 3 if q else 4
    cases = []
    for p in PRODUCTS:
        for nbx, nby, bw, bh in itertools.product(range(1, m), range(1, m), range(1, 4), range(1, 3) if q else range(1, 4)):
            for part in (True, False):
                cases.append((p, nbx, nby, bw, bh, (0, 3, 1, 4, 2, 5, 0), part, 0.0, None, None, False))
    run_cases(ctx, "layouts", one, cases, describe=d)
    cases = []
    for p in PRODUCTS:
        n = 4 if p in ("HLS14-L30", "HLS-L30") else 3
        for pat in itertools.product(range(6), repeat=n if not q else n - 1):
            cases.append((p, len(pat) if len(pat) % 2 else 2, 1 if len(pat) % 2 else len(pat) // 2, 1, 1, pat, True, 0.0, None, None, False))
            if len(pat) % 2 == 0:
                cases.append((p, 2, 1, 1, len(pat) // 2, pat, True, 0.0, None, None, False))
    run_cases(ctx, "quality-patterns", one, cases, describe=d)
    cases = []
    for p in PRODUCTS:
        for pat in ((0, 1, 4, 4), (0, 4, 4, 4), (4, 4, 4, 4), (5, 5, 5, 5), (0, 5, 5, 5), (3, 3, 0, 4)):
            for thr in (0.0, 0.25, 0.3, 0.5, 0.99):
                cases.append((p, 2, 2, 1, 1, pat, True, thr, None, None, False))
        for lo in (None, "2000-02-28", "2000-02-29", "2000-03-01"):
            for hi in (None, "2000-02-28", "2000-02-29", "2000-03-01"):
                for part in (True, False):
                    cases.append((p, 2, 1, 1, 2, (0,), part, 0.0, lo, hi, False))
        if p.startswith("ARD"):
            for lay in ((1, 1, 3, 3), (2, 2, 1, 1), (3, 2, 2, 1), (2, 1, 3, 2)):
                for thr in (0.0, 0.4):
                    cases.append((p,) + lay + ((0, 3, 4, 1, 2), True, thr, None, None, True))
    run_cases(ctx, "thresholds-dates", one, cases, describe=d)
    ctx.coverage["exhaustive"] = True
