"""C21: the classification stages."""
import collections
import datetime
import itertools
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit enumeration of every order of the block stages, every subset of blocks without records, every small
layout and every small label histogram, on the real stages over real files, against per-pixel features computed
independently and the stored model"""
NOTE = """A deterministic stand-in replaces the random forest in the enumeration of orders (it is trained and stored through
the package's own code); the real random forest is used in a part of its own.  Interleavings inside the stages, and
waiting, belong to C18."""
RULE = """A case is (layout, subset of blocks without records, order of the stages, folders, years) or one label
histogram.  Non-trivial: at least one pixel is classified, or at least one sample is due; distinct by case."""

SCRATCH = None
NAN = -9999


class Stub:
    """a model whose class depends on every feature, and on what it was trained with"""
    last = None

    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y):
        import numpy as np
        self.X, self.y = np.asarray(X).copy(), np.asarray(y).copy()
        self.salt = int(abs(self.X.astype(float)).sum()) % 5
        Stub.last = self

    def predict(self, X):
        import numpy as np
        X = np.asarray(X, dtype=float)
        w = 1 + np.arange(X.shape[1]) * 3
        return (1 + (np.floor(np.abs(X) * 7 + .5) @ w + self.salt) % 8).astype(int)


def rec_dtype():
    from vlib import px
    return px


def mid(year):
    return datetime.date(year, 7, 1).toordinal()


def segments(p, years, mode):
    """temporal segments of pixel p (0-based in the tile): [(first day, last day, base value)]"""
    lo, hi = mid(years[0]) - 200, mid(years[-1]) + 200
    if mode == 0:
        return []
    if mode == 1:
        return [(lo, hi, 10 + p)]
    if mode == 2:
        cut = mid(years[len(years) // 2]) - 100
        return [(lo, cut - 30, 10 + p), (cut, hi, 500 + 3 * p)]
    # starts after the first year
    return [(mid(years[0]) + 30, hi, 900 + 7 * p)]


def want_feature(segs, day, band, feats):
    for i, (a, b, base) in enumerate(segs):
        end = b if i == len(segs) - 1 else segs[i + 1][0]
        if a <= day < end:
            co = [base + band * 2.0 + k for k in range(8)]
            co[1] = base / 1024 + band
            out = []
            for f in feats:
                if f == "a0":
                    out.append(co[0] + co[1] * day / 10000)
                elif f == "c1":
                    out.append(co[1] / 10000)
                elif f == "rmse":
                    out.append(base * .25 + band)
                else:
                    out.append(co[{"a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[f]])
            return out
    return None


def records(segs, pos, dtype):
    import numpy as np
    out = np.zeros(len(segs), dtype=dtype)
    for i, (a, b, base) in enumerate(segs):
        out[i]["t_start"], out[i]["t_end"], out[i]["pos"] = a, b, pos
        out[i]["t_break"] = 0 if i == len(segs) - 1 else segs[i + 1][0]
        for band in range(7):
            co = [base + band * 2.0 + k for k in range(8)]
            co[1] = base / 1024 + band
            out[i]["coefs"][band] = co
            out[i]["rmse"][band] = base * .25 + band
    return out


def raster(path, a):
    from osgeo import gdal
    d = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, gdal.GDT_Byte)
    d.GetRasterBand(1).WriteArray(a)
    d.FlushCache()
    del d


def quotas(counts, P):
    n = sum(counts)
    q = [min(max(min(round(c * P["total_samples"] / n), P["max_category_samples"]), P["min_category_samples"]), c) for c in counts]
    # a share of exactly .5 may be rounded either way
    alt = []
    for c, v in zip(counts, q):
        x = c * P["total_samples"] / n
        o = {v}
        if abs(x - int(x) - .5) < 1e-9:
            for y in (int(x), int(x) + 1):
                o.add(min(max(min(y, P["max_category_samples"]), P["min_category_samples"]), c))
        alt.append(o)
    return alt


def pipeline(case, st):
    nby, nbx, bh, bw, absent, order1, order3, folders, years, feats, ref, real, sccd = case
    import numpy as np
    pc, dtype = st[:2]
    root = tempfile.mkdtemp(prefix="cl-", dir=SCRATCH)
    fails = []
    saved = pc.RandomForestClassifier, pc.time.sleep
    naps = [0]

    def nap(s):
        naps[0] += 1
        if naps[0] > 200:
            raise RuntimeError("still waiting after 200 naps")
    pc.time.sleep = nap
    if not real:
        pc.RandomForestClassifier = Stub
    try:
        from pycold.common import DatasetInfo
        nr, nc = nby * bh, nbx * bw
        rec = os.path.join(root, "rec")
        os.mkdir(rec)
        kw = {}
        tmp = out = os.path.join(rec, "feature_maps")
        if folders & 1:
            tmp = kw["tmp_path"] = os.path.join(root, "t")
        if folders & 2:
            out = kw["output_path"] = os.path.join(root, "o")
        seg = {}
        for b in range(1, nby * nbx + 1):
            by, bx = (b - 1) // nbx, (b - 1) % nbx
            parts = []
            for r in range(bh):
                for c in range(bw):
                    R, C = by * bh + r, bx * bw + c
                    p = R * nc + C
                    seg[(R, C)] = [] if b in absent else segments(p, years, (1 + p + p // 3) % 4 if nr * nc > 1 else 1)
                    if seg[(R, C)]:
                        parts.append(records(seg[(R, C)], p + 1, dtype))
            if parts:
                np.save(os.path.join(rec, "record_change_x%d_y%d_cold.npy" % (bx + 1, by + 1)), np.hstack(parts))
        cells = [(r, c) for r in range(nr) for c in range(nc)]
        label = np.array([[(r * 3 + c * 2 + (r * c) // 2) % 10 for c in range(nc)] for r in range(nr)], dtype=np.uint8)
        if not ((label >= 1) & (label <= 8)).any():
            label[0, 0] = 3
        raster(os.path.join(root, "seed.tif"), label)
        ds = DatasetInfo(nr, nc, nbx, nby)
        make = lambda: pc.PyClassifierHPC(ds, rec, year_list_to_predict=list(years), feature_outputs=list(feats),
                                          seedmap_path=os.path.join(root, "seed.tif"), logger=st[2], **kw)
        # the stages are run by separate processes in practice: a new object each time
        make().hpc_preparation()
        done = 0
        for b in order1:
            if make().is_finished_step1_predict_features():
                fails.append(("step1-finished-early", dict(done=done)))
            make().step1_feature_generation(block_id=b)
            done += 1
        if not make().is_finished_step1_predict_features():
            fails.append(("step1-never-finished", {}))
        if make()._is_finished_step2_train_rfmodel():
            fails.append(("step2-finished-early", {}))
        make().step2_train_rf(ref_year=ref)
        feat = {}
        day = lambda y: mid(y)
        for y in years:
            for p in cells:
                per = [want_feature(seg[p], day(y), band, feats) for band in range(7)]
                feat[(y, p)] = None if per[0] is None else np.array([v for b in per for v in b], dtype=np.float32)
        nf = 7 * len(feats)
        if not os.path.exists(os.path.join(out, "rf.model")):
            fails.append(("model-not-in-output-folder", dict(files=sorted(os.listdir(out)))))
            return fails, None
        model = pc.joblib.load(os.path.join(out, "rf.model"))
        if not real:
            ry = 2001 if ref is None else ref
            pool, got = {k: [] for k in range(1, 9)}, []
            counts = [0] * 8
            for (r, c) in cells:
                k = int(label[r, c])
                if 1 <= k <= 8:
                    counts[k - 1] += 1
                    f = feat[(ry, (r, c))]
                    pool[k].append(np.full(nf, NAN, np.float32) if f is None else f)
            for x, y in zip(model.X, model.y):
                got.append(int(y))
                i = [i for i, f in enumerate(pool.get(int(y), [])) if len(f) == len(x) and np.allclose(f, x, rtol=1e-5, atol=1e-3)]
                if not i:
                    fails.append(("foreign-or-repeated-sample", dict(sample=x, category=int(y))))
                    break
                pool[int(y)].pop(i[0])
            per = collections.Counter()
            for k in got:
                per[k] += 1
            for k, o in enumerate(quotas(counts, DEF)):
                if per[k + 1] not in o:
                    fails.append(("sample-number", dict(category=k + 1, want=sorted(o), got=per[k + 1])))
        done = 0
        if sccd:
            for b in range(1, nby * nbx + 1):
                a = np.full((bh * bw, nf), NAN, dtype=np.float32)
                for i in range(bh * bw):
                    f = feat[(years[0], (((b - 1) // nbx) * bh + i // bw, ((b - 1) % nbx) * bw + i % bw))]
                    if f is not None:
                        a[i] = f
                np.save(os.path.join(tmp, "tmp_feature_now_block%d.npy" % b), a)
        for b in order3:
            if make()._is_finished_step3_classification():
                fails.append(("step3-finished-early", dict(done=done)))
            (make().step3_classification_sccd if sccd else make().step3_classification)(block_id=b)
            done += 1
        if not make()._is_finished_step3_classification():
            fails.append(("step3-never-finished", {}))
        if not sccd and make().is_finished_step4_assemble():
            fails.append(("step4-finished-early", {}))
        (make().step4_assemble_sccd if sccd else make().step4_assemble)()
        if not sccd and not make().is_finished_step4_assemble():
            fails.append(("step4-never-finished", {}))
        classified = 0
        for y in (["now"] if sccd else years):
            f = os.path.join(out, "yearlyclassification_%s.npy" % y)
            if not os.path.exists(f):
                fails.append(("map-missing", dict(year=y, files=sorted(os.listdir(out)))))
                continue
            a = np.load(f)
            if a.shape != (nr, nc):
                fails.append(("map-shape", dict(year=y, want=(nr, nc), got=a.shape)))
                continue
            for p in cells:
                x = feat[(years[0] if sccd else y, p)]
                # (rounding of the features must not matter)
                w = [255] if x is None else sorted({int(model.predict((x * s).reshape(1, -1))[0]) for s in (1, 1 + 1e-6, 1 - 1e-6)})
                classified += x is not None
                if int(a[p]) not in w:
                    fails.append(("class", dict(year=y, pixel=p, want=w, got=int(a[p]))))
                    break
        extra = [f for f in os.listdir(out) if f != "rf.model" and not f.startswith("yearlyclassification_")]
        if extra:
            fails.append(("intermediate-files-left", dict(files=extra[:4])))
    finally:
        pc.RandomForestClassifier, pc.time.sleep = saved
        shutil.rmtree(root)
    return fails[:4], case if classified else None


DEF = {"min_category_samples": 600, "max_category_samples": 8000, "total_samples": 20000, "total_landcover_category": 8}


def numbers(case, st):
    """sample numbers for a label histogram"""
    import numpy as np
    pc = st[0]
    counts, P = case
    P = dict(P)
    lab = [k + 1 for k, c in enumerate(counts) for _ in range(c)] + [0] * 3 + [len(counts) + 1] * 2 + [255]
    got = [int(x) for x in pc.generate_sample_num(np.array(lab).reshape(1, -1), P)]
    alt = quotas(counts, P)
    if len(got) != len(alt) or any(g not in o for g, o in zip(got, alt)):
        return [("sample-number", dict(counts=counts, parameters=P, want=[sorted(o) for o in alt], got=got))], case
    return [], case


def train(case, st):
    """train_rfmodel on one label map: which pixels are drawn"""
    import numpy as np
    pc = st[0]
    nr, nc, lab, P = case
    from pycold.common import DatasetInfo
    label = np.array(lab).reshape(nr, nc)
    saved = pc.RandomForestClassifier, dict(pc.defaults["CLASSIFIER"])
    pc.RandomForestClassifier = Stub
    try:
        pc.defaults["CLASSIFIER"].update(dict(P))
        c = pc.PyClassifier(DatasetInfo(nr, nc, 1, 1), logger=st[2])
        full = np.arange(nr * nc * 21, dtype=np.float32).reshape(nr, nc, 21)
        m = c.train_rfmodel(full, label)
        ids = [int(x[0]) // 21 for x in m.X]
        if len(set(ids)) != len(ids):
            return [("repeated-sample", dict(case=case, pixels=ids))], case
        for x, p, y in zip(m.X, ids, m.y):
            if list(x) != list(full.reshape(-1, 21)[p]) or lab[p] != y:
                return [("foreign-sample", dict(case=case, pixel=p, label=lab[p], got=int(y)))], case
        counts = [sum(v == k + 1 for v in lab) for k in range(dict(P)["total_landcover_category"])]
        for k, o in enumerate(quotas(counts, dict(P))):
            n = sum(int(y) == k + 1 for y in m.y)
            if n not in o:
                return [("sample-number", dict(case=case, category=k + 1, want=sorted(o), got=n))], case
    finally:
        pc.RandomForestClassifier = saved[0]
        pc.defaults["CLASSIFIER"].update(saved[1])
    return [], case


def init():
    import logging
    import sys
    import warnings
    from vlib import build
    sys.path.insert(0, str(build.build()))
    warnings.simplefilter("ignore")
    import numpy as np
    import pycold.pyclassifier as pc
    from pycold.imagetool import tile_processing  # noqa: F401
    log = logging.getLogger("c21")
    log.disabled = True
    dt = np.dtype([('t_start', np.int32), ('t_end', np.int32), ('t_break', np.int32), ('pos', np.int32), ('num_obs', np.int32),
                   ('category', np.short), ('change_prob', np.short), ('coefs', np.float32, (7, 8)), ('rmse', np.float32, 7),
                   ('magnitude', np.float32, 7)], align=True)
    return pc, dt, log


F3 = ("a0", "a1", "b1")
FALL = ("a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse")


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    Y = (1999, 2000, 2001)
    cs = []
    perms = list(itertools.permutations(range(1, 5)))
    # every order of the block stages
    for o1 in perms:
        for o3 in (perms if not q else [perms[0], perms[9], perms[16], perms[23]]):
            cs.append((2, 2, 1, 2, (), o1, o3, 0, Y, F3, 2001, False, False))
            if q and o1 != perms[0]:
                cs.append((2, 2, 1, 2, (), o3, o1, 0, Y, F3, 2001, False, False))
    # every subset of blocks without records
    for n in range(5):
        for ab in itertools.combinations(range(1, 5), n):
            for lay in ((2, 2), (1, 4), (4, 1)):
                cs.append(lay + (2, 1, ab, (1, 2, 3, 4), (4, 3, 2, 1), 0, Y, F3, 2000, False, False))
    # layouts
    m = 4 if q else 5
    for nby in range(1, m):
        for nbx in range(1, m):
            for bh, bw in ((1, 1), (1, 3), (2, 1), (3, 2)):
                o = tuple(range(1, nby * nbx + 1))
                for o1, o3 in ((o, o), (o[::-1], o)) if q else itertools.product((o, o[::-1]), repeat=2):
                    cs.append((nby, nbx, bh, bw, (), o1, o3, 0, Y, F3, 2001, False, False))
                    cs.append((nby, nbx, bh, bw, (2,) if len(o) > 1 else (), o1, o3, 0, Y, F3, 2001, False, False))
    # many blocks: two-digit block numbers
    for nby, nbx in ((3, 4), (4, 3), (2, 6), (6, 2), (11, 1), (1, 11)):
        o = tuple(range(1, nby * nbx + 1))
        cs.append((nby, nbx, 2, 3, (3,), o[::-1], o, 0, Y, F3, 2001, False, False))
    # folders, years, features
    for folders in range(4):
        for years in ((2001,), (1998, 1999, 2001), tuple(range(1995, 2004))):
            for feats in (F3, FALL, ("rmse",), ("b1", "a0"), ("c1", "a2", "b2", "a3", "b3")):
                for ref in (None, years[-1]) if 2001 in years else (years[0],):
                    cs.append((2, 3, 2, 2, (4,), (1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1), folders, years, feats, ref, False, False))
        for ab in ((), (1,), (2, 3)):
            cs.append((2, 3, 2, 2, ab, (1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1), folders, Y, F3, 2001, False, True))
    run_cases(ctx, "stages", pipeline, cs, init=init, case_timeout=200)
    run_cases(ctx, "random-forest", pipeline, [(nby, nbx, 6, 5, ab, tuple(range(1, nby * nbx + 1)), tuple(range(1, nby * nbx + 1)), 0, Y, F3, 2001,
                                                True, s) for nby, nbx in ((2, 2), (1, 3), (3, 2)) for ab in ((), (2,)) for s in (False, True)],
              init=init, case_timeout=300)
    PS = []
    for tot, mx, mn in ((10, 4, 2), (10, 100, 1), (7, 3, 3), (100, 5, 0), (3, 2, 1)):
        PS.append((("total_samples", tot), ("max_category_samples", mx), ("min_category_samples", mn), ("total_landcover_category", 3)))
    nb = [(c, P) for c in itertools.product(range(0, 8 if q else 13), repeat=3) if sum(c) for P in PS]
    D = tuple(sorted(DEF.items()))
    big = (0, 1, 599, 600, 601, 5000, 30000)
    nb += [((a, b, c) + (0,) * 4 + (d,), D) for a in big for b in big for c in big for d in (0, 700) if a + b + c + d]
    run_cases(ctx, "sample-numbers", numbers, nb, init=init)
    tr = [(2, 3, lab, P) for lab in itertools.product((0, 1, 2, 3, 4), repeat=6) if any(1 <= x <= 3 for x in lab)
          for P in (PS[0], PS[2], PS[4])[:1 if q else 3]]
    if q:
        tr = tr[::3]
    run_cases(ctx, "training-samples", train, tr, init=init)
