"""C16: mosaic of the change-magnitude blocks."""
import datetime
import itertools
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "fault_enumeration"
TECHNIQUE = "explicit enumeration of layouts, interval counts, output kinds and every subset of missing block files on the real assembly"
NOTE = """Exhaustive over the stated layouts, interval counts and missing-file subsets; each run executes the real
assembly in a scratch folder and every pixel of every map is compared with the value its block recorded."""
RULE = """A case is (layout, number of intervals, interval length, start date, kind, set of missing blocks, clean flag);
the expected maps are computed pixel by pixel.  Non-trivial: more than one pixel; distinct by case."""

DT = {"CM": "int16", "CM_date": "int32", "CM_direction": "uint8"}


def one(case):
    nbx, nby, bw, bh, n_cm, start, interval, kind, missing, clean = case
    import numpy as np
    from pycold import utils, ob_analyst
    from pycold.imagetool import tile_processing as tp
    from pycold.common import DatasetInfo
    ds = DatasetInfo(nby * bh, nbx * bw, nbx, nby)
    root = tempfile.mkdtemp(prefix="cm-", dir=SCRATCH)
    res, maps = os.path.join(root, "res"), os.path.join(root, "maps")
    os.mkdir(res)
    os.mkdir(maps)
    fails = []
    try:
        want = np.full((n_cm, nby * bh, nbx * bw), -9999, dtype=np.int64)
        if kind == "CM_direction":
            want[:] = np.array(-9999).astype(np.uint8)
        for b in range(nbx * nby):
            if b in missing:
                continue
            by, bx = b // nbx + 1, b % nbx + 1
            vals = []
            for i in range(bw * bh):
                for k in range(n_cm):
                    v = (b * 7919 + i * 131 + k * 17) % (250 if kind == "CM_direction" else 30000)
                    if (b + i + k) % 5 == 0 and kind != "CM_direction":
                        v = -9999
                    vals.append(v)
                    want[k, (by - 1) * bh + i // bw, (bx - 1) * bw + i % bw] = v
            np.save(os.path.join(res, "%s_x%d_y%d.npy" % (kind, bx, by)), np.array(vals, dtype=np.int16 if kind != "CM_direction" else np.uint8))
        other = {"CM": "CM_date", "CM_date": "CM", "CM_direction": "CM"}[kind]
        open(os.path.join(res, other + "_x1_y1.npy"), "w").close()
        open(os.path.join(res, "record_change_x1_y1_cold.npy"), "w").close()
        before = sorted(os.listdir(res))
        utils.assemble_cmmaps(ds, res, maps, start, n_cm, kind, interval, clean=clean)
        after = sorted(os.listdir(res))
        expect = [f for f in before if not (clean and f.startswith(kind + "_x"))]
        if after != expect:
            fails.append(("cleanup", dict(want=expect, got=after)))
        names = []
        for k in range(n_cm):
            d = start + k * interval
            day = datetime.date.fromordinal(d)
            name = "%s_maps_%d_%d%03d.npy" % (kind, d, day.year, day.timetuple().tm_yday)
            names.append(name)
            if kind != "CM_direction":
                f = ob_analyst.cmname_fromdate if kind == "CM" else ob_analyst.cmdatename_fromdate
                if f(d) + ".npy" != name:
                    fails.append(("reader-name", dict(want=name, got=f(d))))
        if sorted(os.listdir(maps)) != sorted(names):
            return fails + [("map-names", dict(want=names, got=sorted(os.listdir(maps))))], case
        for k, name in enumerate(names):
            m = np.load(os.path.join(maps, name))
            if m.shape != want[k].shape or str(m.dtype) != DT[kind]:
                fails.append(("map-shape", dict(shape=m.shape, dtype=str(m.dtype))))
            elif not (m.astype(np.int64) == want[k]).all():
                r, c = np.argwhere(m.astype(np.int64) != want[k])[0]
                fails.append(("map-value", dict(interval=k, row=r, col=c, want=want[k][r, c], got=m[r, c])))
        # completeness test used by the other workers
        if kind == "CM":
            if tp.is_finished_assemble_cmmaps(maps, n_cm, start, interval):
                fails.append(("finished-without-dates", ""))
            for n in names:
                shutil.copy(os.path.join(maps, n), os.path.join(maps, n.replace("CM_maps", "CM_date_maps")))
            if not tp.is_finished_assemble_cmmaps(maps, n_cm, start, interval):
                fails.append(("not-finished", ""))
            for n in sorted(os.listdir(maps)):
                os.rename(os.path.join(maps, n), os.path.join(root, "x"))
                if tp.is_finished_assemble_cmmaps(maps, n_cm, start, interval):
                    fails.append(("finished-without", n))
                os.rename(os.path.join(root, "x"), os.path.join(maps, n))
    finally:
        shutil.rmtree(root)
    return fails[:4], (case if nbx * nby * bw * bh > 1 else None)


SCRATCH = None


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    n = 3 if q else 4
    lays = list(itertools.product(range(1, n + 1), range(1, n + 1), (1, 2, 3), (1, 2, 3) if not q else (1, 2)))
    cases = []
    for (a, b, w, h) in lays:
        for n_cm in (1, 2, 3) if q else (1, 2, 3, 5):
            for kind in ("CM", "CM_date", "CM_direction"):
                cases.append((a, b, w, h, n_cm, 730120, 60, kind, (), False))
        cases.append((a, b, w, h, 2, 733408, 32, "CM_date", (), True))
        cases.append((a, b, w, h, 2, 733408, 365, "CM", (), True))
    d = lambda c: dict(zip(("n_block_x", "n_block_y", "block_width", "block_height", "n_cm", "start", "interval", "kind", "missing", "clean"), c))
    run_cases(ctx, "layouts", one, cases, describe=d)
    cases = []
    for (a, b) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([] if q else [(3, 3), (4, 2), (2, 4)]):
        nb = a * b
        for r in range(1, nb + 1):
            for miss in itertools.combinations(range(nb), r):
                cases.append((a, b, 2, 1, 2, 730120, 60, "CM", miss, False))
                cases.append((a, b, 1, 2, 2, 730120, 60, "CM_date", miss, True))
    run_cases(ctx, "missing-blocks", one, cases, describe=d)
    # every day number of a leap and a common year names its map correctly
    cases = [(1, 1, 1, 1, 1, datetime.date(y, 1, 1).toordinal() + k, 60, "CM", (), False) for y in (2000, 2001) for k in
             (range(0, 366) if not q else list(range(0, 366, 7)) + [8, 9, 10, 98, 99, 100, 364, 365])]
    run_cases(ctx, "names", one, cases, describe=d)
    ctx.coverage["exhaustive"] = True
