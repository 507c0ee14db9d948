"""Small tiles for the parallel driver: inputs, one run under the controlled file system, and what must come out."""
import datetime
import math
import os

NROW_COL = {}


def noise(*k):
    x = 1469598103
    for v in k:
        x = ((x ^ (v + 77)) * 16777619) & 0xffffffff
    x ^= x >> 13
    return x % 41 - 20


def series(p, dates, t_change, kind):
    """8 x n observations of pixel p"""
    out = [[0] * len(dates) for _ in range(8)]
    base = [300, 500, 600, 2500, 1500, 900, 2900]
    amp = [20, 30, 40, 300, 150, 80, 800]
    step = {0: [0] * 7, 1: [400, 500, 900, -900, 1100, 1000, 300], 2: [900, 1100, 1500, -500, 1900, 1600, 200]}[kind]
    for i, d in enumerate(dates):
        w = 2 * math.pi * d / 365.25
        for b in range(7):
            v = base[b] + 17 * (p % 5) + amp[b] * math.cos(w) + noise(p, i, b) + (step[b] if d >= t_change else 0)
            out[b][i] = int(round(v))
        out[7][i] = 0 if (i * 7 + p) % 13 else 4
    return out


def make_inputs(root, nby, nbx, bh, bw, empty=(), start=(1999, 3, 1), n=100, step=12, interval=360, conse=6, prob=0.99):
    """stack folders, starting_last_dates.txt, yaml, seed map -> parameters"""
    import numpy as np
    from osgeo import gdal
    stack = os.path.join(root, "stack")
    os.makedirs(stack)
    nr, nc = nby * bh, nbx * bw
    d0 = datetime.date(*start).toordinal()
    dates = [d0 + step * i for i in range(n)]
    for by in range(nby):
        for bx in range(nbx):
            f = os.path.join(stack, "block_x%d_y%d" % (bx + 1, by + 1))
            os.mkdir(f)
            if by * nbx + bx + 1 in empty:
                continue
            px = []
            for q in range(bh * bw):
                r, c = by * bh + q // bw, bx * bw + q % bw
                p = r * nc + c
                px.append(series(p, dates, dates[n // 2] + 5 * (p % 3), [1, 1, 0, 2][p % 4]))
            a = np.array(px, dtype=np.int16)            # pixels x bands x dates
            for i, d in enumerate(dates):
                y = datetime.date.fromordinal(d)
                np.save(os.path.join(f, "LT5025007%04d%03dC1V01.npy" % (y.year, y.timetuple().tm_yday)), a[:, :, i].reshape(bh, bw, 8))
    with open(os.path.join(stack, "starting_last_dates.txt"), "w") as f:
        f.write("%d\n%d\n" % (dates[0], dates[-1]))
    y = os.path.join(root, "config.yaml")
    with open(y, "w") as f:
        f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\nALGORITHMINFO:\n  conse: %d\n"
                "  CM_OUTPUT_INTERVAL: %d\n  probability_threshold: %g\n" % (nr, nc, nbx, nby, conse, interval, prob))
    seed = os.path.join(root, "seed.tif")
    d = gdal.GetDriverByName("GTiff").Create(seed, nc, nr, 1, gdal.GDT_Byte)
    d.GetRasterBand(1).WriteArray(np.array([[1 + (r * nc + c) % 4 for c in range(nc)] for r in range(nr)], dtype=np.uint8))
    d.FlushCache()
    del d
    return dict(stack=stack, yaml=y, seed=seed, dates=dates, interval=interval, conse=conse, prob=prob, nr=nr, nc=nc, nbx=nbx, nby=nby, bh=bh, bw=bw,
                empty=tuple(empty))


class Stub:
    """cheap deterministic stand-in for the random forest (stored through the package's own code)"""

    def __init__(self, **kw):
        pass

    def fit(self, X, y):
        import numpy as np
        self.X, self.y = np.asarray(X, dtype=float), np.asarray(y)

    def predict(self, X):
        import numpy as np
        d = ((np.asarray(X, dtype=float)[:, None, :] - self.X[None]) ** 2).sum(axis=2)
        return self.y[d.argmin(axis=1)]


def prepare(memo=True):
    """import the driver; answers of the pixel functions are remembered (they are functions of their arguments: C01)"""
    import contextlib
    import io
    import logging
    import os as _os
    import sys
    import warnings
    from vlib import build
    if str(build.build()) not in sys.path:
        sys.path.insert(0, str(build.build()))
    warnings.simplefilter("ignore")
    import numpy as np
    import pycold.ob_analyst as oa
    import pycold.pyclassifier as pc
    from pycold.imagetool import tile_processing as tp
    logging.disable(logging.CRITICAL)
    pc.RandomForestClassifier = Stub
    calls = []

    def remember(f, tag):
        cache = {}

        def g(*a, **kw):
            key = tuple(x.tobytes() if isinstance(x, np.ndarray) else x for x in a) + tuple(sorted((k, v) for k, v in kw.items()))
            calls.append((tag, kw.get("pos")))
            if key not in cache:
                try:
                    cache[key] = (f(*a, **kw), None)
                except Exception as e:
                    cache[key] = (None, e)
            r, e = cache[key]
            if e is not None:
                raise e
            return [x.copy() for x in r] if isinstance(r, list) else r.copy() if isinstance(r, np.ndarray) else r
        return g
    real = dict(cold=tp.cold_detect, sccd=tp.sccd_detect, obcold=oa.obcold_reconstruct)
    if memo:
        tp.cold_detect, tp.sccd_detect = remember(tp.cold_detect, "cold"), remember(tp.sccd_detect, "sccd")
        oa.obcold_reconstruct = remember(oa.obcold_reconstruct, "obcold")
        oa.segmentation_floodfill = remember_seg(oa.segmentation_floodfill)
    # the driver talks on standard output
    sys.stdout = open(_os.devnull, "w")
    return dict(tp=tp, pc=pc, oa=oa, calls=calls, real=real)


def remember_seg(f):
    cache = {}

    def g(a, b, c, d, floodfill_ratio=None, **kw):
        key = (a.tobytes(), b.tobytes(), c.tobytes(), d.tobytes(), a.shape, floodfill_ratio, tuple(sorted(kw)))
        if key not in cache:
            cache[key] = f(a, b, c, d, floodfill_ratio=floodfill_ratio, **kw)
        return [x.copy() for x in cache[key]]
    return g


def worker(st, inp, out, rank, n, method, thematic, **kw):
    def f():
        st["tp"].main.callback(rank=rank, n_cores=n, stack_path=inp["stack"], result_path=out, yaml_path=inp["yaml"], method=method,
                               seedmap_path=inp["seed"] if thematic else None, low_datebound=kw.get("low"), upper_datebound=kw.get("upp"),
                               b_c2=kw.get("b_c2", False), seedmap_year=2001 if thematic else None)
    return f


def keep(rel):
    """files that are not results: the report carries times"""
    return rel.endswith("tile_processing_report.log")
