"""C20: classification features, over all small record lists and days."""
import itertools

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit enumeration of every record list over a small grid of dates, every day, every feature subset and
order, and every small block layout and pixel subset, executed on the real code and compared with the segment cover
computed from first principles"""
NOTE = """Exhaustive over the stated grids.  Every field of every segment holds a different number, so a value identifies
the segment, band and coefficient it came from."""
RULE = """A case is one record list (all its days, bands and features are compared) or one block layout with a subset of
pixels having records.  Non-trivial: at least one day is covered by a segment; distinct by case."""

ALL = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]
NANV = -9999


def segment(dt, idx, t0, t1, pos=1, nan=()):
    import numpy as np
    r = np.zeros(1, dtype=dt)
    r["t_start"], r["t_end"], r["pos"] = t0, t1, pos
    r["t_break"] = t1
    r["category"], r["num_obs"] = idx, 10 + idx
    for b in range(7):
        for k in range(8):
            r["coefs"][0, b, k] = 1000 * (idx + 1) + 100 * (b + 1) + 10 * (k + 1) + pos % 7 * 0.5
        r["rmse"][0, b] = 1000 * (idx + 1) + 100 * (b + 1) + 95 + pos % 7 * 0.5
        r["magnitude"][0, b] = -5
    for b, k in nan:
        if k == 8:
            r["rmse"][0, b] = np.nan
        else:
            r["coefs"][0, b, k] = np.nan
    return r


def expected(segs, band, day, feature, nan=()):
    """segs: [(t0, t1, pos)]"""
    for i, (t0, t1, pos) in enumerate(segs):
        hi = segs[i + 1][0] if i + 1 < len(segs) else t1
        if t0 <= day < hi:
            v = lambda k: 1000 * (i + 1) + 100 * (band + 1) + 10 * (k + 1) + pos % 7 * 0.5
            if feature == "a0":
                if (band, 0) in nan or (band, 1) in nan:
                    return 0.0
                return v(0) + v(1) * day / 10000.0
            if feature == "rmse":
                return 0.0 if (band, 8) in nan else 1000 * (i + 1) + 100 * (band + 1) + 95 + pos % 7 * 0.5
            k = {"c1": 1, "a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[feature]
            if (band, k) in nan:
                return 0.0
            return v(k) / (10000.0 if feature == "c1" else 1)
    return float(NANV)


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(b), 1) + 1e-9


def lists(case):
    segs, base, nan, feats = case
    import numpy as np
    from pycold.common import reccg_dt
    from pycold.pyclassifier import extract_features
    segs = [(base + a, base + b, 1) for a, b in segs]
    rec = np.hstack([segment(reccg_dt, i, a, b, nan=nan) for i, (a, b, _) in enumerate(segs)])
    days = list(range(base - 1, base + 7))
    fails, covered = [], False
    for band in range(7):
        before = rec.tobytes()
        out = extract_features(rec, band, days, NANV, feature_outputs=list(feats))
        if rec.tobytes() != before:
            fails.append(("records-modified", ""))
        if len(out) != len(feats) or any(len(o) != len(days) for o in out):
            return [("shape", dict(n=len(out)))], case
        for f, col in zip(feats, out):
            for day, got in zip(days, col):
                want = expected(segs, band, day, f, nan)
                covered |= want != NANV
                if not close(got, want):
                    fails.append(("feature", dict(feature=f, band=band, day=day - base, want=want, got=got)))
    return fails[:3], (case if covered else None)


def blocks(case):
    nbx, nby, bw, bh, block, subset, feats, bands = case
    import datetime
    import logging
    import numpy as np
    from pycold.common import reccg_dt, DatasetInfo
    from pycold.pyclassifier import PyClassifier
    ds = DatasetInfo(nby * bh, nbx * bw, nbx, nby)
    lg = logging.getLogger("quiet")
    lg.disabled = True
    by, bx = (block - 1) // nbx, (block - 1) % nbx
    years = [1999, 2000, 2001]
    july = [datetime.date(y, 7, 1).toordinal() for y in years]
    recs, segs = [], {}
    for i in subset:
        row, col = by * bh + i // bw, bx * bw + i % bw
        pos = row * nbx * bw + col + 1
        kinds = [[(july[0] - 5, july[1] + 10)], [(july[0] + 1, july[1]), (july[1], july[2] + 1)],
                 [(july[0], july[0] + 3), (july[1] - 3, july[2])]]
        s = [(a, b, pos) for a, b in kinds[i % 3]]
        segs[i] = s
        recs += [segment(reccg_dt, k, a, b, pos=pos) for k, (a, b, _) in enumerate(s)]
    rec = np.hstack(recs) if recs else np.zeros(0, dtype=reccg_dt)
    c = PyClassifier(ds, feature_outputs=list(feats), logger=lg, band_num=bands)
    out = c.predict_features(block, rec, years)
    nf = len(feats)
    if out.shape != (3, bw * bh, nf * bands):
        return [("block-shape", dict(shape=out.shape))], case
    for y in range(3):
        for i in range(bw * bh):
            for b in range(bands):
                for k, f in enumerate(feats):
                    want = expected(segs[i], b, july[y], f) if i in segs else float(NANV)
                    got = float(out[y, i, b * nf + k])
                    if not close(got, float(np.float32(want))):
                        return [("block-feature", dict(year=years[y], index=i, band=b, feature=f, want=want, got=got))], case
    return [], (case if subset else None)


def seglists(n, grid):
    """all lists of n segments on the grid: t0 <= t1, and t1 <= next t0"""
    if n == 0:
        yield ()
        return
    for rest in seglists(n - 1, grid):
        lo = rest[-1][1] if rest else 0
        for a in range(lo, grid):
            for b in range(a, grid):
                yield rest + ((a, b),)


def run(ctx):
    q = ctx.quick
    g = 5 if q else 6
    d = lambda c: dict(zip(("segments", "base", "nan", "features"), c))
    cases = [(s, base, (), tuple(ALL)) for base in (730000, 700000) for n in (1, 2, 3) for s in seglists(n, g)]
    if not q:
        cases += [(s, 730000, (), tuple(ALL)) for s in seglists(4, 6)]
    run_cases(ctx, "record-lists", lists, cases, describe=d)
    two = ((0, 2), (3, 5))
    cases = [(two, 730000, (), f) for r in (1, 2) for f in itertools.permutations(ALL, r)]
    cases += [(two, 730000, (), tuple(reversed(ALL)))]
    if not q:
        cases += [(two, 730000, (), f) for f in itertools.permutations(ALL, 3)]
    run_cases(ctx, "feature-orders", lists, cases, describe=d)
    cells = [(b, k) for b in range(7) for k in range(9)]
    cases = [(two, 730000, (c,), tuple(ALL)) for c in cells] + [(two, 730000, c, tuple(ALL)) for c in itertools.combinations(cells[:18], 2)]
    run_cases(ctx, "nan", lists, cases, describe=d)
    db = lambda c: dict(zip(("n_block_x", "n_block_y", "block_width", "block_height", "block", "pixels", "features", "bands"), c))
    cases = []
    m = 3 if q else 4
    for nbx, nby in itertools.product(range(1, m), repeat=2):
        for bw, bh in itertools.product(range(1, m), repeat=2):
            n = bw * bh
            for b in range(1, nbx * nby + 1):
                for r in range(n + 1):
                    for s in itertools.combinations(range(n), r):
                        if q and n > 4 or n > 6 and r not in (0, 1, 2, n):
                            continue
                        cases.append((nbx, nby, bw, bh, b, s, ("a0", "a1", "b1"), 7))
                        if r == n:
                            cases.append((nbx, nby, bw, bh, b, s, ("rmse",), 7))
                            cases.append((nbx, nby, bw, bh, b, s, ("b3", "a0"), 3))
                            cases.append((nbx, nby, bw, bh, b, s, tuple(ALL), 1))
    run_cases(ctx, "blocks", blocks, cases, describe=db)
    ctx.coverage["exhaustive"] = True
