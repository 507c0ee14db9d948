"""C25: reading a block stack."""
import datetime
import itertools
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit enumeration of every subset and listing order of a set of acquisitions, all date bounds and all small
block sizes, on the real readers with the folder listing under control"""
NOTE = """The folder listing order is enumerated by substituting os.listdir for the folder; files are real .npy files.
Exhaustive within the stated sets."""
RULE = """A case is (reader, acquisitions, listing order, bounds, block size); the returned stack and dates must equal the
acquisitions selected by date, each pixel and band at its place.  Non-trivial: at least one acquisition selected;
distinct by case."""

SCRATCH = None


def day(y, doy):
    return datetime.date(y, 1, 1).toordinal() + doy - 1


# sensor, tile, year, doy, suffix -- leap days, year ends, several sensors, same-year order reversed by sensor name
ACQ = [("LT5", "025007", 1999, 365, "C1V01"), ("LE7", "025007", 2000, 1, "C1V01"), ("LC8", "025007", 2000, 60, "C1V01"),
       ("LT4", "025007", 2000, 366, "C1V01"), ("LC9", "025007", 2001, 1, "C1V01"), ("LE7", "025007", 2001, 59, "C_2"),
       ("L30", "T18TYM", 2001, 10, "HLSv1"), ("S30", "T18TYM", 2001, 9, "HLSv1"),
       ("S30", "T18TYM", 2001, 10, "HLSv1")]    # the last: a second image of one date


def name(a):
    return "%s%s%04d%03d%s.npy" % a


def value(a, pix, band):
    return ACQ.index(a) * 1000 + pix * 10 + band


def one(case):
    reader, acq, order, lo, hi, bw, bh = case
    import numpy as np
    import pycold.utils as u
    from pycold.common import DatasetInfo
    from pycold.imagetool import tile_processing as tp
    root = tempfile.mkdtemp(prefix="st-", dir=SCRATCH)
    fails = []
    try:
        nbx, nby, bx, by = 2, 3, 2, 3
        folder = os.path.join(root, "block_x%d_y%d" % (bx, by))
        os.mkdir(folder)
        for i in range(1, nbx + 1):    # decoys: other blocks
            for j in range(1, nby + 1):
                if (i, j) != (bx, by):
                    os.mkdir(os.path.join(root, "block_x%d_y%d" % (i, j)))
        for k in acq:
            a = ACQ[k]
            arr = np.array([[value(a, p, b) for b in range(8)] for p in range(bw * bh)], dtype=np.int16).reshape(bh, bw, 8)
            np.save(os.path.join(folder, name(a)), arr)
        listing = [name(ACQ[k]) for k in order]
        real = os.listdir
        fake = lambda p=".": list(listing) if os.path.abspath(str(p)) == folder else real(p)
        os.listdir = fake
        try:
            ds = DatasetInfo(nby * bh, nbx * bw, nbx, nby)
            if reader == "stack":
                got = tp.get_stack_date(ds, bx, by, root, lo, hi)
            else:
                got = u.read_blockdata(folder, bw * bh, 8)
        finally:
            os.listdir = real
        want = sorted((day(ACQ[k][2], ACQ[k][3]), k) for k in acq)
        if reader == "stack":
            want = [w for w in want if (not lo or w[0] >= lo) and (not hi or w[0] <= hi)]
        stack, dates = got
        if not want:
            if stack is not None and len(dates) > 0:
                fails.append(("empty-block", dict(got=len(dates))))
            return fails, None
        if stack is None:
            return [("nothing-read", dict(want=want))], case
        if [int(d) for d in dates] != [w[0] for w in want]:
            return [("dates", dict(want=[w[0] for w in want], got=[int(d) for d in dates]))], case
        if stack.shape != (bw * bh, 8, len(want)):
            return [("shape", dict(want=(bw * bh, 8, len(want)), got=stack.shape))], case
        # images of one date may come in either order
        for t in range(len(want) - 1):
            if want[t][0] == want[t + 1][0] and int(stack[0, 0, t]) != value(ACQ[want[t][1]], 0, 0):
                want[t], want[t + 1] = want[t + 1], want[t]
        for p in range(bw * bh):
            for b in range(8):
                for t, (_, k) in enumerate(want):
                    if int(stack[p, b, t]) != value(ACQ[k], p, b):
                        return [("value", dict(pixel=p, band=b, image=name(ACQ[k]), want=value(ACQ[k], p, b), got=int(stack[p, b, t])))], case
    finally:
        shutil.rmtree(root)
    return fails, case


def dates_file(case):
    start, end, interval = case
    from pycold.imagetool import tile_processing as tp
    root = tempfile.mkdtemp(prefix="st-", dir=SCRATCH)
    try:
        with open(os.path.join(root, "starting_last_dates.txt"), "w") as f:
            f.write("%d\n%d\n" % (start, end))
        s, n = tp.reading_start_dates_nmaps(root, interval)
    finally:
        shutil.rmtree(root)
    fails = []
    if s != start:
        fails.append(("start-date", dict(want=start, got=s)))
    # the grid must cover the last date and not have a superfluous interval that no date of the set can fall into
    if not (start + n * interval > end):
        fails.append(("grid-too-short", dict(n=n)))
    if n > (end - start + 1) // interval + 1:
        fails.append(("grid-too-long", dict(n=n)))
    return fails, case


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    d = lambda c: dict(zip(("reader", "acquisitions", "listing", "low", "high", "block_width", "block_height"), c))
    cases = []
    for reader, pool in (("stack", range(9)), ("block", range(9))):
        for r in range(0, 5 if q else 6):
            for s in itertools.combinations(pool, r):
                orders = list(itertools.permutations(s)) if r <= 3 else [s, s[::-1], s[1:] + s[:1], s[2:] + s[:2]]
                for o in orders:
                    cases.append((reader, s, o, 0, 0, 2, 1))
        cases.append((reader, tuple(pool), tuple(pool)[::-1], 0, 0, 2, 2))
    run_cases(ctx, "subsets-orders", one, cases, describe=d)
    cases = []
    marks = sorted({day(a[2], a[3]) + k for a in ACQ for k in (-1, 0, 1)})
    sets = [(0, 1, 2, 3, 4, 5, 6, 7, 8), (6, 8), (1, 2), (3,), (0, 7, 6)] if q else [s for r in (1, 2, 3) for s in itertools.combinations(range(9), r)] + [tuple(range(9))]
    for s in sets:
        for lo in [0] + marks:
            for hi in [0] + marks:
                if lo and hi and lo > hi:
                    continue
                if not q and len(s) == 3 and lo and hi and (lo + hi) % 4:
                    continue
                cases.append(("stack", s, s[::-1], lo, hi, 1, 2))
    run_cases(ctx, "bounds", one, cases, describe=d)
    cases = [(rd, s, s, 0, 0, bw, bh) for rd in ("stack", "block") for s in ((2,), (0, 4), (1, 3, 5)) for bw in range(1, 6) for bh in range(1, 6)]
    run_cases(ctx, "block-sizes", one, cases, describe=d)
    cases = [(730000, 730000 + k, i) for k in range(0, 400 if q else 1500) for i in (1, 7, 30, 32, 60, 365)]
    run_cases(ctx, "grid", dates_file, cases, describe=lambda c: dict(zip(("start", "end", "interval"), c)))
    ctx.coverage["exhaustive"] = True
