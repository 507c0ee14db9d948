"""C29: every small reference image, array type and day through the image and date helpers."""
import datetime
import os
import pathlib

import numpy as np

from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """exhaustive enumeration of the input space of the helpers: all small image shapes x band counts x pixel types x georeferences
x destinations (new, overwritten), and every calendar day of a century; the real functions write real files, which are read back and
compared with an independent formulation"""
NOTE = """Exhaustive within the reported shapes, types, georeferences and days."""
RULE = """Index image: one Int32 band of the reference's size and georeference, pixel (i, j) holds (i+1)*10000+j+1.  Map: one band of the
array's size and the requested type holding the array, with the reference's georeference if one is given and none otherwise; the array and
the reference file are unchanged.  Days: ordinal, calendar date and day of year agree with the calendar.  State files: the bytes of the
parts of the state.  Distinct = different inputs."""
GEO = {"utm": ((500000.0, 30.0, 0.0, 4500000.0, 0.0, -30.0), 32618), "sinu": ((-8895604.15, 463.3, 0.0, 4447802.0, 0.0, -463.3), 5070),
       "rot": ((10.0, 0.5, 0.25, 50.0, 0.25, -0.5), 4326), "north-up": ((0.0, 1.0, 0.0, 0.0, 0.0, 1.0), None)}


def proj(code):
    from osgeo import osr
    if code is None:
        return ""
    s = osr.SpatialReference()
    s.ImportFromEPSG(code)
    return s.ExportToWkt()


def make(path, rows, cols, bands, gtype, geo):
    from osgeo import gdal
    gdal.UseExceptions()
    d = gdal.GetDriverByName("GTiff").Create(str(path), cols, rows, bands, gtype)
    for b in range(bands):
        d.GetRasterBand(b + 1).WriteArray(np.arange(rows * cols).reshape(rows, cols) % 200 + b)
    d.SetGeoTransform(GEO[geo][0])
    if GEO[geo][1]:
        d.SetProjection(proj(GEO[geo][1]))
    d = None


def look(path):
    from osgeo import gdal
    d = gdal.Open(str(path))
    g = d.GetGeoTransform()
    p = d.GetProjection()
    return d.RasterCount, d.GetRasterBand(1).DataType, d.GetRasterBand(1).ReadAsArray(), tuple(g), p


def same_ref(p, q):
    from osgeo import osr
    if not p or not q:
        return not p and not q
    return bool(osr.SpatialReference(p).IsSame(osr.SpatialReference(q)))


def index(case):
    from osgeo import gdal
    from pycold import utils
    rows, cols, bands, tname, geo, over = case
    d = pathlib.Path(os.environ["C29_DIR"]) / str(os.getpid())
    d.mkdir(exist_ok=True)
    ref, out = d / "ref.tif", d / "out.tif"
    for f in (ref, out):
        f.unlink(missing_ok=True)
    make(ref, rows, cols, bands, getattr(gdal, "GDT_" + tname), geo)
    if over:
        make(out, cols + 2, rows + 1, 2, gdal.GDT_Byte, "rot")
    before = ref.read_bytes()
    utils.generate_rowcolimage(str(ref), str(out))
    fails = []
    n, t, a, g, p = look(out)
    want = np.array([[(i + 1) * 10000 + j + 1 for j in range(cols)] for i in range(rows)])
    if n != 1 or t != gdal.GDT_Int32:
        fails.append(("index-bands", (n, t)))
    if a.shape != want.shape or not np.array_equal(a, want):
        fails.append(("index-values", a.tolist()))
    if g != tuple(look(ref)[3]) or not same_ref(p, look(ref)[4]):
        fails.append(("index-georeference", (g, p)))
    if ref.read_bytes() != before:
        fails.append(("reference-changed", None))
    return fails, str(case)


TYPES = {"Int16": (np.int16, -32768, 32767), "Byte": (np.uint8, 0, 255), "UInt16": (np.uint16, 0, 65535),
         "Int32": (np.int32, -2**31, 2**31 - 1), "Float32": (np.float32, -1e30, 1.5)}


def band(case):
    from osgeo import gdal
    from pycold import utils
    rows, cols, tname, src, geo, bands, over, layout = case
    d = pathlib.Path(os.environ["C29_DIR"]) / str(os.getpid())
    d.mkdir(exist_ok=True)
    ref, out = d / "ref.tif", d / "out.tif"
    for f in (ref, out):
        f.unlink(missing_ok=True)
    dt, lo, hi = TYPES[tname]
    pal = np.array([lo, hi, 0, 1, 2, 7, 100], np.float64)
    a = pal[(np.arange(rows * cols) * 3 + rows) % len(pal)].reshape(rows, cols).astype(dt).astype(src or dt)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "view":
        w = np.zeros((rows * 2, cols + 3), a.dtype)
        w[::2, 1:cols + 1] = a
        a = w[::2, 1:cols + 1]
    keep = a.copy()
    if over:
        make(out, rows + 1, cols + 2, 2, gdal.GDT_Byte, "rot")
    kw = {}
    if geo:
        make(ref, rows, cols, bands, gdal.GDT_Int16, geo)
        before = ref.read_bytes()
        kw["ref_image_path"] = str(ref)
    if tname != "Int16":
        kw["gtype"] = getattr(gdal, "GDT_" + tname)
    utils.save_1band_fromrefimage(a, str(out), **kw)
    n, t, r, g, p = look(out)
    fails = []
    if n != 1 or t != getattr(gdal, "GDT_" + tname):
        fails.append(("map-bands", (n, t)))
    if r.shape != (rows, cols) or not np.array_equal(r, keep.astype(dt)):
        fails.append(("map-values", r.tolist()))
    if geo:
        if g != tuple(look(ref)[3]) or not same_ref(p, look(ref)[4]):
            fails.append(("map-georeference", (g, p)))
        if ref.read_bytes() != before:
            fails.append(("reference-changed", None))
    elif p or g != (0.0, 1.0, 0.0, 0.0, 0.0, 1.0):
        fails.append(("map-georeference", (g, p)))
    if not np.array_equal(a, keep):
        fails.append(("array-changed", None))
    return fails, str(case)


def days(year):
    from pycold import utils
    fails = []
    d = datetime.date(year, 1, 1)
    n = 0
    while d.year == year:
        n += 1
        o = utils.date2matordinal(d.year, d.month, d.day)
        if o != d.toordinal():
            fails.append(("day-ordinal", (str(d), int(o))))
        b = utils.matordinal2date(d.toordinal())
        if (b.year, b.month, b.day) != (d.year, d.month, d.day):
            fails.append(("day-date", (str(d), str(b))))
        s = utils.get_doy(d.toordinal())
        if s != "%03d" % n:
            fails.append(("day-of-year", (str(d), s)))
        d += datetime.timedelta(1)
    return fails[:3], "year %d" % year


def anchors(case):
    from pycold import utils
    start, n, step = case
    a = utils.get_anchor_days(start, n, step)
    return ([] if [int(x) for x in a] == [start + k * step for k in range(n)] else [("anchor-days", list(map(int, a)))]), str(case)


def packs(name):
    import pandas as pd
    from pycold import utils
    from vlib import px, states
    r = px.sccd(states.arr(states.initial(name)), conse=4)
    if r[0] != "ok":
        return [("state", r)], None
    p = r[1]
    d = pathlib.Path(os.environ["C29_DIR"]) / ("p%d" % os.getpid())
    d.mkdir(exist_ok=True)
    data = pd.DataFrame([[1, -2, 3], [40, 50, 60]])
    z = px.freeze(p)
    utils.save_nrtfiles(str(d), "9", p, data)
    utils.save_obs2csv(str(d / "obs.csv"), data)
    fails = []
    want = {"rec_cg": p.rec_cg, "nrt_model": p.nrt_model, "nrt_queue": p.nrt_queue, "min_rmse": p.min_rmse,
            "nrt_mode": np.asarray(p.nrt_mode)}
    for k, v in want.items():
        raw = (d / ("sccd_pack9_" + k)).read_bytes()
        x = np.frombuffer(raw, v.dtype)
        if px.freeze(x) != px.freeze(np.asarray(v).reshape(-1)):
            fails.append(("state-file", k))
    for f in ("spectral_9_extension.csv", "obs.csv"):
        if not np.array_equal(utils.read_data(str(d / f)), data.to_numpy().T):
            fails.append(("observation-file", f))
    if px.freeze(p) != z:
        fails.append(("state-changed", name))
    return fails, name


def run(ctx):
    q = ctx.quick
    os.environ["C29_DIR"] = str(ctx.scratch)
    n = 4 if q else 7
    big = [(1, 300), (257, 3), (100, 120)]
    shapes = [(r, c) for r in range(1, n + 1) for c in range(1, n + 1)] + big
    cs = [(r, c, b, t, g, o) for r, c in shapes for b in ((1, 3) if q else (1, 2, 3, 6)) for t in ("Byte", "Int16", "Float32")
          for g in GEO for o in (False, True)]
    run_cases(ctx, "index", index, cs, describe=lambda c: dict(zip(("rows", "cols", "bands", "type", "georeference", "over"), c)))
    cs = [(r, c, t, s, g, b, o, l) for r, c in shapes for t in TYPES for s in ("", "f8") for g in [None] + list(GEO) for b in (1, 3)
          for o in (False, True) for l in (("C", "view") if q else ("C", "F", "view")) if g or b == 1]
    run_cases(ctx, "map", band, cs, describe=lambda c: dict(zip(("rows", "cols", "type", "from", "georeference", "bands", "over",
                                                                 "layout"), c)))
    run_cases(ctx, "days", days, range(1950, 2051) if q else range(1700, 2200), describe=lambda c: dict(year=c))
    run_cases(ctx, "anchors", anchors, [(s, k, i) for s in (0, 1, 724000, 736330) for k in range(0, 40 if q else 400)
                                        for i in (1, 7, 16, 32, 90, 365)], describe=lambda c: dict(start=c[0], n=c[1], interval=c[2]))
    from vlib import states
    run_cases(ctx, "packs", packs, sorted(states.INIT), describe=lambda c: dict(history=c))
    ctx.coverage["exhaustive"] = True
