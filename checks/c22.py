"""C22: spatial objects and their change decision."""
import datetime
import itertools
import math
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit enumeration of every small change map over an alphabet of magnitudes, dates and previous-map values,
of every object size, cover and magnitude around each limit, and of every block layout up to a bound, on the real
functions, against an independent reference (set-based flood fill, closed-form decision rule)"""
NOTE = """Ties of seed magnitude may be resolved in any order; cases within 1e-4 of a flood-fill limit are not judged.
For the slic and watershed variants, whose segmentation proper is scikit-image's, the clauses of the statement are checked
(admissible pixels, connectedness, means, gap filling), not one partition."""
RULE = """A case is one map (with previous map, dates, ratio) or one decision or one layout with its files.  Non-trivial:
at least one object is formed (maps), or a decision is made; distinct by case."""

SCRATCH = None
NAN = -9999
PEAK = 9.236356899781123       # 0.90 quantile of chi-square with 5 degrees of freedom
GATE = 6.064429984154846       # 0.70 quantile
LIMITS = {1: (11.07, .1), 2: (15.086, .05), 3: (15.086, .05), 4: (11.07, .1), 5: (15.086, .05), 6: (11.07, .1),
          7: (15.086, .05), 8: (15.086, .05), 255: (11.07, 0)}
W = {(i, j): math.exp(-(i * i + j * j) / 2.0) for i in range(-4, 5) for j in range(-4, 5)}


def smooth(v, nr, nc):
    """v: {(r, c): value} of the pixels with data; the map is continued outward by its edge."""
    out = {}
    for (r, c) in v:
        s = w = 0.0
        for (i, j), k in W.items():
            p = (min(max(r + i, 0), nr - 1), min(max(c + j, 0), nc - 1))
            if p in v:
                s += k * v[p]
                w += k
        out[(r, c)] = s / w
    return out


def near8(p, pool):
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            q = (p[0] + i, p[1] + j)
            if q != p and q in pool:
                yield q


def components(cells):
    cells, out = set(cells), []
    while cells:
        todo = [cells.pop()]
        comp = set(todo)
        while todo:
            for q in list(near8(todo.pop(), cells)):
                cells.discard(q)
                comp.add(q)
                todo.append(q)
        out.append(frozenset(comp))
    return out


def fill(seed, S, D, free, ratio, interval):
    """pixels joined to the seed, and whether a comparison was too close to call"""
    g = S[seed] * ratio
    comp, todo, close = {seed}, [seed], False
    while todo:
        for q in near8(todo.pop(), free):
            if q in comp:
                continue
            d = abs(S[q] - S[seed])
            if abs(d - g) <= 1e-4 * max(1, g):
                close = True
            if d <= g and abs(D[q] - D[seed]) <= interval:
                comp.add(q)
                todo.append(q)
    return frozenset(comp), close


def parts_of(label):
    out = {}
    for (r, c), k in _cells(label):
        if k != 0:
            out.setdefault(k, set()).add((r, c))
    return {k: frozenset(v) for k, v in out.items()}


def _cells(a):
    nr, nc = a.shape
    return [((r, c), a[r, c].item()) for r in range(nr) for c in range(nc)]


def gapfill(cm, l1, date, d1, lo1):
    """(magnitudes with data, dates), from the current and previous maps"""
    v, D = {}, {}
    for (p, x) in cm.items():
        if x == NAN and l1 is not None:
            x = l1[p] if (l1[p] != NAN and l1[p] >= lo1) else NAN
        if x != NAN:
            v[p] = x
        d = date[p]
        if d == NAN and d1 is not None:
            d = d1[p]
        D[p] = d
    return v, D


def common(S, labels, s2, info, dates, D, nr, nc):
    """clauses common to all segmentations -> failures"""
    import numpy as np
    fails = []
    parts = parts_of(labels)
    for k, comp in parts.items():
        if not comp <= set(S):
            return [("labels-weak-pixel", dict(object=sorted(comp), admissible=sorted(S)))]
        if len(components(comp)) != 1:
            return [("disconnected-object", dict(object=sorted(comp)))]
    want = {p: d for p, d in D.items()}
    got = {p: d for p, d in _cells(dates)}
    if got != want:
        fails.append(("dates-filled", dict(want=sorted(want.items()), got=sorted(got.items()))))
    ids = [int(k) for k in info["label"]]
    means = [float(m) for m in info["mean_intensity"]]
    present = set(parts) | ({0} if np.any(labels == 0) else set())
    if sorted(ids) != sorted(present):
        fails.append(("object-list", dict(want=sorted(present), got=ids)))
    for k, m in zip(ids, means):
        if k == 0:
            if not m < 0:
                fails.append(("background-mean", dict(got=m)))
        elif k in parts:
            w = sum(S[p] for p in parts[k]) / len(parts[k])
            if abs(m - w) > 1e-6 * max(1, abs(w)):
                fails.append(("mean-magnitude", dict(object=sorted(parts[k]), want=w, got=m)))
    a = sorted(sorted(c) for c in components(p for c in parts.values() for p in c))
    b = sorted(sorted(c) for c in parts_of(s2).values())
    if a != b:
        fails.append(("patches", dict(want=a, got=b)))
    return fails


def arr(d, nr, nc, dtype):
    import numpy as np
    return np.array([[d[(r, c)] for c in range(nc)] for r in range(nr)], dtype=dtype)


def judge_flood(cm, date, l1, d1, nr, nc, ratio, scale=100, interval=60, prob=False, peak=None, pars=None):
    """run the real flood fill on one map -> (failures, outcome)"""
    import numpy as np
    import pycold.ob_analyst as oa
    kw = dict(date_interval=interval)
    if ratio is not None:
        kw["floodfill_ratio"] = ratio
    if prob:
        kw["b_dist_prob_map"] = True
        if peak is not None:
            kw["peak_threshold"] = peak
    if pars is not None:
        kw["parameters"] = pars
    dt = np.float32 if prob else np.int16
    lab, dd, s2, info = oa.segmentation_floodfill(
        arr(cm, nr, nc, dt), arr(date, nr, nc, np.int32), None if l1 is None else arr(l1, nr, nc, dt),
        None if d1 is None else arr(d1, nr, nc, np.int32), **kw)
    r = 0.4 if ratio is None else ratio
    if prob:
        pk = 0.5 if peak is None else peak
        v, D = {}, {}
        for p, x in cm.items():
            x = float(np.float32(x))
            if x == 0 and l1 is not None and l1[p] >= pk:
                x = float(np.float32(l1[p]))
            v[p] = x
            D[p] = d1[p] if (date[p] == NAN and d1 is not None) else date[p]
        v = {p: x for p, x in v.items() if x >= pk * (1 - r)}
    else:
        pk = PEAK
        v, D = gapfill(cm, l1, date, d1, PEAK * scale)
        v = {p: x / scale for p, x in v.items()}
        v = {p: x for p, x in v.items() if x >= pk * (1 - r)}
    S = smooth(v, nr, nc)
    fails = common(S, lab, s2, info, dd, D, nr, nc)
    if fails:
        return fails, cm
    if any(abs(x - pk) < 1e-6 for x in S.values()):
        return [], "near"
    parts = parts_of(lab)
    region = {p: k for k, c in parts.items() for p in c}
    seeds = sorted((p for p in S if S[p] > pk), key=lambda p: -S[p])
    for p in seeds:
        if p not in region:
            return [("strong-pixel-unlabelled", dict(pixel=p, smoothed=S[p]))], cm
    free = set(S)
    i, n_obj = 0, 0
    while i < len(seeds):
        j = i
        while j < len(seeds) and S[seeds[i]] - S[seeds[j]] < 1e-9:
            j += 1
        group = [p for p in seeds[i:j] if p in free]
        i = j
        while group:
            for p in group:
                comp, close = fill(p, S, D, free, r, interval)
                if close:
                    return [], "near"
                if comp == parts.get(region[p]):
                    break
            else:
                return [("object-extent", dict(seed=group[0], smoothed=sorted(S.items()), dates=sorted(D.items()),
                                               want=sorted(fill(group[0], S, D, free, r, interval)[0]),
                                               got=sorted(parts[region[group[0]]])))], cm
            n_obj += 1
            free -= comp
            group = [p for p in group if p in free]
    if n_obj != len(parts):
        return [("superfluous-object", dict(want=n_obj, got=len(parts)))], cm
    return [], n_obj


def flood(case, _=None):
    """one chunk of maps: all maps with the given first pixels"""
    kind, nr, nc, head, ratio = case
    cells = [(r, c) for r in range(nr) for c in range(nc)]
    alpha = ALPHA[kind]
    fails, n, near, objs, seen = [], 0, 0, 0, set()
    for tail in itertools.product(range(len(alpha)), repeat=len(cells) - len(head)):
        px = [alpha[k] for k in head + tail]
        cm = {p: x[0] for p, x in zip(cells, px)}
        date = {p: x[1] for p, x in zip(cells, px)}
        l1 = {p: x[2] for p, x in zip(cells, px)} if len(alpha[0]) > 2 else None
        d1 = {p: x[3] for p, x in zip(cells, px)} if len(alpha[0]) > 2 else None
        n += 1
        f, o = judge_flood(cm, date, l1, d1, nr, nc, ratio, prob=kind.startswith("prob"),
                           peak=0.3 if kind == "prob-low" else None)
        if f:
            fails += [(k, dict(d, map=[px[i:i + nc] for i in range(0, len(px), nc)], ratio=ratio)) for k, d in f]
            if len(fails) > 5:
                break
        elif o == "near":
            near += 1
        elif o:
            objs += o
            seen.add((kind, nr, nc, ratio, head + tail))
    return fails, dict(digests={hash(s) for s in seen}, maps=n, not_judged_near_tie=near, objects=objs)


D0, D1, D2 = 1000, 1055, 1110      # D0-D1 and D1-D2 may be joined, D0-D2 may not
ALPHA = {
    # (magnitude * 100, date)
    "mag-date": [(NAN, NAN), (300, D0), (700, D0), (700, D2), (1100, D0), (1100, D1), (1100, D2), (2500, D1)],
    "mag": [(NAN, NAN), (700, D0), (1300, D0), (2500, D0)],
    "mag3": [(NAN, NAN), (700, D0), (1500, D0)],
    # (magnitude, date, previous magnitude, previous date)
    "gap": [(a, NAN if a == NAN else D1, b, NAN if b == NAN else d) for a in (NAN, 300, 700, 1500)
            for b, d in ((NAN, D0), (700, D0), (1000, D0), (3000, D0), (1500, D2))],
    "prob": [(a, NAN if a == 0 else D1, b, d) for a in (0, .2, .4, .9) for b, d in ((0, NAN), (.4, D0), (.8, D0), (.8, 900))],
    "prob-low": [(a, NAN if a == 0 else D1, b, d) for a in (0, .1, .4, .9) for b, d in ((0, NAN), (.4, D0), (.8, D0))],
}


def flood_cases(quick):
    out = []
    plan = [("mag-date", 1, 4, None, 1), ("mag-date", 2, 2, None, 1), ("mag-date", 2, 2, .2, 1), ("mag", 2, 3, None, 2), ("mag", 1, 5, .7, 1),
            ("mag3", 3, 3, None, 5), ("gap", 1, 2, None, 1), ("gap", 1, 3, None, 1), ("gap", 2, 1, .1, 1), ("prob", 1, 3, None, 1),
            ("prob", 2, 2, .1, 2) if not quick else ("prob", 2, 1, .1, 1), ("prob-low", 1, 3, None, 1)]
    if not quick:
        plan += [("mag-date", 1, 5, None, 2), ("mag-date", 1, 5, .2, 2), ("mag", 2, 4, None, 3), ("mag", 2, 4, .2, 3),
                 ("mag", 3, 3, None, 5), ("mag3", 2, 5, None, 6), ("gap", 2, 2, None, 2), ("gap", 1, 3, .6, 1)]
    for kind, nr, nc, ratio, split in plan:
        for head in itertools.product(range(len(ALPHA[kind])), repeat=split):
            out.append((kind, nr, nc, head, ratio))
    return out


def large(case, _=None):
    """many objects in one map (more than the 8-bit labels of the flood fill hold)"""
    n, step, seq, ratio = case
    cells = [(r, c) for r in range(n) for c in range(n)]
    cm, k = {}, 0
    for (r, c) in cells:
        if seq == "dense":
            cm[(r, c)] = 600 + (r * 37 + c * 101 + r * c * 13) % 1900
        elif r % step == 0 and c % step == 0:
            k += 1
            cm[(r, c)] = 1000 + ((k * 7) % 1500 if seq == "mixed" else 3 * k if seq == "rising" else -0 if seq == "equal" else 2500 - 3 * k)
        else:
            cm[(r, c)] = NAN
    date = {p: NAN if cm[p] == NAN else 1000 + ((p[0] // 5) * 70 if seq == "dense" else 0) for p in cells}
    f, o = judge_flood(cm, date, None, None, n, n, ratio)
    return [(k, dict(d, map=case)) for k, d in f], o if o == "near" else (case, o)


def other(case, _=None):
    """slic and watershed: the clauses of the statement"""
    import numpy as np
    import pycold.ob_analyst as oa
    method, kind, nr, nc, head, low = case
    cells = [(r, c) for r in range(nr) for c in range(nc)]
    alpha = ALPHA[kind]
    fails, n, objs, seen = [], 0, 0, set()
    for tail in itertools.product(range(len(alpha)), repeat=len(cells) - len(head)):
        px = [alpha[k] for k in head + tail]
        cm, date = [{p: x[i] for p, x in zip(cells, px)} for i in (0, 1)]
        l1 = d1 = None
        if len(alpha[0]) > 2:
            l1, d1 = [{p: x[i] for p, x in zip(cells, px)} for i in (2, 3)]
        n += 1
        kw = {} if low is None else dict(low_bound=low)
        lab, dd, s2, info = getattr(oa, "segmentation_" + method)(
            arr(cm, nr, nc, np.int16), arr(date, nr, nc, np.int32), None if l1 is None else arr(l1, nr, nc, np.int16),
            None if d1 is None else arr(d1, nr, nc, np.int32), **kw)
        lo = GATE if low is None else low
        v, D = gapfill(cm, l1, date, d1, -1)
        v = {p: x / 100 for p, x in v.items() if x / 100 >= lo}
        S = smooth(v, nr, nc)
        f = common(S, lab, s2, info, dd, D, nr, nc)
        if not f:
            strong = {p for p in S if S[p] > lo + 1e-9}
            got = {p for c in parts_of(lab).values() for p in c}
            if got - strong:
                f = [("labels-weak-pixel", dict(got=sorted(got), admissible=sorted(strong)))]
        if f:
            fails += [(method + "/" + k, dict(d, map=[px[i:i + nc] for i in range(0, len(px), nc)])) for k, d in f]
            if len(fails) > 5:
                break
        else:
            objs += len(parts_of(lab))
            if objs:
                seen.add(hash((case, tail)))
    return fails, dict(digests=seen, maps=n, objects=objs)


def other_large(case, _=None):
    import numpy as np
    import pycold.ob_analyst as oa
    method, n, k, low = case
    cells = [(r, c) for r in range(n) for c in range(n)]
    cm = {(r, c): NAN if (r * k + c * 3) % 11 < 3 else 400 + (r * 37 + c * 101 + r * c * k) % 1900 for (r, c) in cells}
    date = {p: NAN if cm[p] == NAN else 1000 + p[0] for p in cells}
    lab, dd, s2, info = getattr(oa, "segmentation_" + method)(arr(cm, n, n, np.int16), arr(date, n, n, np.int32),
                                                              **({} if low is None else dict(low_bound=low)))
    lo = GATE if low is None else low
    S = smooth({p: x / 100 for p, x in cm.items() if x / 100 >= lo}, n, n)
    f = common(S, lab, s2, info, dd, date, n, n)
    strong = {p for p in S if S[p] > lo + 1e-9}
    got = {p for c in parts_of(lab).values() for p in c}
    if not f and (got - strong):
        f = [("labels-weak-pixel", dict(got=sorted(got - strong)))]
    if not f and strong - got and method == "watershed":
        f = [("strong-pixel-unlabelled", dict(got=sorted(strong - got)))]
    return [(method + "/" + x, dict(d, map=case)) for x, d in f], (case, len(parts_of(lab))) if got else None


def scale_of(size, slope):
    return min(2.0, math.log10(size) * slope + 0.95)


def decide(case, _=None):
    """is_change_object around its limit"""
    import pandas as pd
    import numpy as np
    import pycold.ob_analyst as oa
    cover, size, uni, pars = case
    par = None
    limits = dict(LIMITS)
    if pars:
        par = dict(oa.defaults["OBCOLD"])
        for c in range(1, 9):
            par["C%d_threshold" % c], par["C%d_sizeslope" % c] = 10.0 + c, 0.02 * c
            limits[c] = (10.0 + c, 0.02 * c)
        par["default_threshold"], par["default_sizeslope"] = 9.5, 0.07
        limits[255] = (9.5, 0.07)
    cm = None if cover is None else np.full((2, 2), cover)
    if cover is None:
        thr, slope = limits[255]
    elif uni:
        thr, slope = 13.0, 0.03
    else:
        thr, slope = limits[cover]
    lim = thr / scale_of(size, slope)
    fails = []
    for mean, want in [(lim * (1 - 1e-6), False), (lim * (1 + 1e-6), True), (lim * .5, False), (lim * 3, True), (-9999.0, False)]:
        row = pd.DataFrame({"label": [7], "mean_intensity": [mean], "mode": [255 if cover is None else cover], "npixels": [size]})
        got = bool(oa.is_change_object(row, 13.0 if uni else None, 0.03 if uni else None, "mean_intensity", cm, par))
        if got != want:
            fails.append(("decision", dict(cover=cover, size=size, uniform=uni, mean=mean, limit=lim, want=want, got=got)))
    return fails, case


def analyse(case, _=None):
    """object_analysis on every pair of label map and cover map"""
    import numpy as np
    import pandas as pd
    import pycold.ob_analyst as oa
    nr, nc, lab, covers, mags, uni = case
    cells = [(r, c) for r in range(nr) for c in range(nc)]
    L = dict(zip(cells, lab))
    fails, seen = [], set()
    s2 = np.zeros((nr, nc), dtype=np.int32)
    comps = components(p for p in cells if L[p] > 0)
    size = {}
    for k, comp in enumerate(comps):
        for p in comp:
            s2[p] = k + 1
            size[p] = len(comp)
    objs = sorted(set(lab))
    for mean in itertools.product(mags, repeat=len([k for k in objs if k > 0])):
        it = iter(mean)
        ms = {k: (-9999.0 if k == 0 else next(it)) for k in objs}
        for cov in ([None] if covers is None else itertools.product(covers, repeat=len(cells))):
            C = None if cov is None else dict(zip(cells, cov))
            s1 = arr(L, nr, nc, np.int32)
            info = pd.DataFrame({"label": objs, "mean_intensity": [ms[k] for k in objs]})
            kw = {} if C is None else dict(classification_map=arr(C, nr, nc, np.uint8))
            if uni:
                kw.update(uniform_threshold=13.0, uniform_sizeslope=0.03)
            got = oa.object_analysis(s1, s2.copy(), info, **kw)
            ok = True
            for k in objs:
                comp = [p for p in cells if L[p] == k]
                if k == 0:
                    opts = {0}
                else:
                    if C is None:
                        modes = [255]
                    else:
                        cnt = {c: sum(C[p] == c for p in comp) for c in set(C[p] for p in comp)}
                        modes = [c for c in cnt if cnt[c] == max(cnt.values())]
                    opts = set()
                    for c in modes:
                        thr, slope = (13.0, .03) if (uni and C is not None) else LIMITS[c]
                        opts.add(int(ms[k] * scale_of(size[comp[0]], slope) > thr))
                vals = {int(got[p]) for p in comp}
                if len(vals) != 1 or not vals <= opts:
                    ok = False
            if not ok:
                fails.append(("changed-objects", dict(labels=lab, means=ms, covers=cov, uniform=uni, got=got.tolist())))
                if len(fails) > 4:
                    return fails, None
            seen.add(hash((lab, mean, cov, uni)))
    return fails, dict(digests=seen, decisions=len(seen))


def labellings(nr, nc, k):
    """label maps in which every label is connected, canonical numbering"""
    cells = [(r, c) for r in range(nr) for c in range(nc)]
    for lab in itertools.product(range(k + 1), repeat=len(cells)):
        used = []
        for x in lab:
            if x > 0 and x not in used:
                used.append(x)
        if used != sorted(used) or (used and used != list(range(1, len(used) + 1))):
            continue
        if all(len(components(p for p, x in zip(cells, lab) if x == u)) == 1 for u in used):
            # labels need not be consecutive in practice: spread them
            yield tuple(x * 3 for x in lab)


def tilecase(case, _=None):
    """obia_execute over files, for a layout"""
    import contextlib
    import numpy as np
    import pycold.ob_analyst as oa
    from pycold.common import DatasetInfo
    nby, nbx, bh, bw, method, thematic, off, steps = case
    root = tempfile.mkdtemp(prefix="ob-", dir=SCRATCH)
    L4 = 723742
    start = datetime.date(1999, 12, 1).toordinal()
    nr, nc = nby * bh, nbx * bw
    cells = [(r, c) for r in range(nr) for c in range(nc)]
    step = 60
    dates = [start + off + k * step for k in range(steps)]
    fails = []
    try:
        for d in ("cm_maps", "cls", "stack"):
            os.mkdir(os.path.join(root, d))
        nm = lambda d: "%d_%d%03d" % (d, datetime.date.fromordinal(d).year, datetime.date.fromordinal(d).timetuple().tm_yday)
        maps = {}
        palette = [NAN, 300, 800, 1300, 1600, 2600]
        for k, d in enumerate([dates[0] - step] + dates):
            cm = {(r, c): palette[(r * 5 + c * 3 + k * 4 + (r * c) // 2) % 6] for (r, c) in cells}
            dd = {(r, c): NAN if cm[(r, c)] == NAN else d - L4 + 3 + (r * nc + c) % 50 for (r, c) in cells}
            maps[d] = (cm, dd)
            np.save(os.path.join(root, "cm_maps", "CM_maps_%s.npy" % nm(d)), arr(cm, nr, nc, np.int16))
            np.save(os.path.join(root, "cm_maps", "CM_date_maps_%s.npy" % nm(d)), arr(dd, nr, nc, np.int16))
        cover = {}
        for y in range(1998, 2005):
            cover[y] = {(r, c): [1, 2, 3, 255, 4][(r // 2 + c // 2 + y) % 5] for (r, c) in cells}
            if y >= 1999:
                np.save(os.path.join(root, "cls", "yearlyclassification_%d.npy" % y), arr(cover[y], nr, nc, np.uint8))
        ds = DatasetInfo(nr, nc, nbx, nby)
        ob = oa.ObjectAnalystHPC(ds, os.path.join(root, "stack"), root, start, thematic_path=os.path.join(root, "cls") if thematic else None)
        ob.hpc_preparation()
        changed = 0
        for i, d in enumerate(dates):
            if ob.is_finished_object_analysis(dates):
                fails.append(("finished-early", dict(done=i, dates=dates)))
            with contextlib.redirect_stdout(None):
                ob.obia_execute(d, method=method)
        if not ob.is_finished_object_analysis(dates):
            fails.append(("never-finished", dict()))
        per_date = {}
        for d in dates:
            want = {p: 0 for p in cells}
            if d - step >= start:
                cm, dd = maps[d]
                l1, d1 = maps[d - step]
                up = lambda m: {p: x if x == NAN else x + L4 for p, x in m.items()}
                with contextlib.redirect_stdout(None):
                    s1, upd, s2, info = getattr(oa, "segmentation_" + method)(
                        arr(cm, nr, nc, np.int16), arr(up(dd), nr, nc, np.int32), arr(l1, nr, nc, np.int16), arr(up(d1), nr, nc, np.int32))
                means = dict(zip(info["label"], info["mean_intensity"]))
                y = max(1999, datetime.date.fromordinal(d).year - 1)
                patch = {p: len(c) for c in parts_of(s2).values() for p in c}
                for k, comp in parts_of(s1).items():
                    if thematic:
                        cnt = {}
                        for p in comp:
                            cnt[cover[y][p]] = cnt.get(cover[y][p], 0) + 1
                        modes = [c for c in cnt if cnt[c] == max(cnt.values())]
                    else:
                        modes = [255]
                    dec = {means[k] * scale_of(patch[min(comp)], LIMITS[c][1]) > LIMITS[c][0] for c in modes}
                    for p in comp:
                        dt = (dd[p] if dd[p] != NAN else d1[p]) + L4
                        want[p] = None if len(dec) > 1 else dt if True in dec else 0
                changed += sum(bool(x) for x in want.values())
            per_date[d] = want
        for by in range(nby):
            for bx in range(nbx):
                for d in dates:
                    f = os.path.join(root, "OBIAresults", "obiaresult_%s_x%d_y%d.npy" % (nm(d), bx + 1, by + 1))
                    if not os.path.exists(f):
                        fails.append(("block-missing", dict(block=(bx + 1, by + 1), date=d)))
                        continue
                    a = np.load(f)
                    if a.shape != (bh, bw):
                        fails.append(("block-shape", dict(want=(bh, bw), got=a.shape)))
                        continue
                    for r in range(bh):
                        for c in range(bw):
                            w = per_date[d][(by * bh + r, bx * bw + c)]
                            if w is not None and int(a[r, c]) != w:
                                fails.append(("break-dates", dict(date=d, start=start, block=(bx + 1, by + 1), pixel=(r, c), want=w, got=int(a[r, c]))))
                if not fails:
                    real, order = os.listdir, []
                    for rev in (False, True):
                        os.listdir = lambda p=".": sorted(real(p), reverse=rev)
                        try:
                            st = ob.get_allobiaresult_asarray(bx + 1, by + 1)
                        finally:
                            os.listdir = real
                        w = [[per_date[d][(by * bh + p // bw, bx * bw + p % bw)] for p in range(bh * bw)] for d in dates]
                        if st.shape != (len(dates), bh * bw) or any(
                                x is not None and int(st[i, j]) != x for i, row in enumerate(w) for j, x in enumerate(row)):
                            fails.append(("stacked-breaks", dict(block=(bx + 1, by + 1), want=w, got=st.tolist())))
    finally:
        shutil.rmtree(root)
    return fails[:4], (case, changed) if changed else None


def init():
    import sys
    import warnings
    from vlib import build
    sys.path.insert(0, str(build.build()))
    warnings.simplefilter("ignore")


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    import warnings
    warnings.simplefilter("ignore")
    q = ctx.quick
    run_cases(ctx, "flood-fill", flood, flood_cases(q), init=init, case_timeout=600)
    run_cases(ctx, "many-objects", large, [(n, s, m, r) for n in ((33, 41) if q else (33, 41, 60)) for s, m in
                                           [(2, "mixed"), (2, "rising"), (2, "falling"), (2, "equal"), (3, "mixed")] for r in (None, .1)] +
              [(n, 1, "dense", r) for n in ((12, 20, 33) if q else (12, 20, 33, 45)) for r in (None, .05, .15)], init=init, case_timeout=300)
    oc = []
    for m in ("watershed", "slic"):
        plan = [("mag-date", 1, 3, None, 1), ("mag", 2, 2, None, 1), ("mag3", 2, 3, 5.0, 2), ("gap", 1, 2, None, 1)] if q else \
            [("mag-date", 2, 2, None, 1), ("mag", 2, 3, None, 2), ("mag3", 3, 3, 5.0, 4), ("gap", 1, 3, None, 1)]
        for kind, nr, nc, low, sp in plan:
            oc += [(m, kind, nr, nc, h, low) for h in itertools.product(range(len(ALPHA[kind])), repeat=sp)]
    run_cases(ctx, "slic-watershed", other, oc, init=init, case_timeout=600)
    run_cases(ctx, "slic-watershed-large", other_large, [(m, n, k, low) for m in ("watershed", "slic") for n in ((9, 14, 23) if q else (9, 14, 23, 31, 40))
                                                         for k in (1, 2, 5, 7) for low in (None, 9.0)], init=init, case_timeout=300)
    sizes = list(range(1, 12)) + [99, 100, 101, 1000, 31622, 10 ** 6, 3 * 10 ** 10, 10 ** 11]
    run_cases(ctx, "decision", decide, [(c, s, u, p) for c in [None, 255] + list(range(1, 9)) for s in sizes for u in (False, True)
                                        for p in (False, True)], init=init)
    an = []
    for nr, nc, k, cov in ([(1, 3, 2, (1, 2, 255)), (2, 2, 2, (3, 4))] if q else [(1, 4, 3, (1, 2, 255)), (2, 2, 3, (1, 3, 4)), (2, 3, 2, (3, 4))]):
        for lab in labellings(nr, nc, k):
            for covers in (None, cov):
                for uni in (False, True):
                    an.append((nr, nc, lab, covers, (11.3, 13.5, 15.9), uni))
    for lab in labellings(3, 3, 1):
        an.append((3, 3, lab, None, (11.3, 11.9), False))
    run_cases(ctx, "objects", analyse, an, init=init, case_timeout=600)
    tc = [(nby, nbx, bh, bw, m, t, off, 3) for nby in (1, 2, 3) for nbx in (1, 2, 3) for bh in (2, 3) for bw in (2, 4)
          for m in ("floodfill",) for t in (False, True) for off in (0,)]
    tc += [(2, 2, 3, 2, m, t, off, 4) for m in ("floodfill", "slic", "watershed") for t in (False, True) for off in (0, 1, 59, 60, 61, 31, 400)]
    run_cases(ctx, "tile", tilecase, tc, init=init, case_timeout=300)
