"""C18: tile processing with any number of workers."""
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """stateless model checking of the real driver: the workers of one tile run as threads under a controlled
scheduler that interposes on every file-system operation and every wait; all schedules within a delay bound are enumerated,
for all small layouts, worker counts, methods and starting orders; the single-worker result is compared with the pixel
functions called directly"""
NOTE = """Scheduling points are the operations on paths that several workers touch and one changes (determined to a fixed
point during the exploration, so the reduction loses no schedule within the bound).  Files are created empty, then completed:
another worker may look in between.  Waiting ends when anything has changed, or time passes when everybody waits.  Pixel
results are remembered between schedules (they are functions of their arguments), the random forest is replaced by a
deterministic stand-in.  The report file (times) is not compared."""
RULE = """A case is one configuration and share of its schedules; every schedule is one execution of the whole driver.
Non-trivial: more than one worker and at least one departure from the default order, or a single-worker comparison with
records; distinct by (configuration, schedule)."""

SCRATCH = None


def single(case, st):
    """one worker, against the pixel functions"""
    import numpy as np
    import pickle
    from scipy.stats import chi2
    from vlib import tile
    lay, empty, method, thematic, low, upp, b_c2, prob, bad = case
    root = tempfile.mkdtemp(prefix="t-", dir=SCRATCH)
    fails, found = [], 0
    tp, oa = st["tp"], st["oa"]
    keep = tp.cold_detect, tp.sccd_detect, oa.obcold_reconstruct

    def failing(f):
        def g(*a, **kw):
            if kw.get("pos") in bad:
                raise RuntimeError("injected")
            return f(*a, **kw)
        return g
    try:
        inp = tile.make_inputs(root, *lay, empty=empty, prob=prob)
        res = os.path.join(root, "res")
        tp.cold_detect, tp.sccd_detect, oa.obcold_reconstruct = [failing(f) for f in keep]
        tile.worker(st, inp, res, 1, 1, method, thematic, low=low, upp=upp, b_c2=b_c2)()
        import datetime
        lo = 0 if low is None else datetime.date.fromisoformat(low).toordinal()
        hi = 10 ** 7 if upp is None else datetime.date.fromisoformat(upp).toordinal()
        n_cm = (inp["dates"][-1] - inp["dates"][0] + 1) // inp["interval"] + 1
        thr = chi2.ppf(prob, 5)
        for b in range(1, inp["nbx"] * inp["nby"] + 1):
            by, bx = (b - 1) // inp["nbx"], (b - 1) % inp["nbx"]
            tag = "x%d_y%d" % (bx + 1, by + 1)
            if not os.path.exists(os.path.join(res, "COLD_block%d_finished.txt" % b)):
                fails.append(("block-not-finished", dict(block=b)))
            fold = os.path.join(inp["stack"], "block_" + tag)
            imgs = sorted(os.listdir(fold), key=lambda f: f[9:16])
            sel = [(d, f) for d, f in zip(inp["dates"], imgs) if lo <= d <= hi] if imgs else []
            rec, cm, cmd, rb, packs = [], [], [], [], []
            if sel:
                a = np.stack([np.load(os.path.join(fold, f)).reshape(-1, 8) for _, f in sel], axis=2)
                ds = np.array([d for d, _ in sel])
            for q in range(inp["bh"] * inp["bw"]):
                r, c = by * inp["bh"] + q // inp["bw"], bx * inp["bw"] + q % inp["bw"]
                pos = inp["nc"] * r + c + 1
                x = [a[q, k].astype(np.int64) for k in range(8)] if sel else None
                blank = np.full(n_cm, -9999, dtype=np.short)
                if method == "OBCOLD":
                    if sel and pos not in bad:
                        o, m, md = st["real"]["cold"](ds, *x, pos=pos, conse=inp["conse"], starting_date=inp["dates"][0], n_cm=n_cm, b_c2=b_c2,
                                                      cm_output_interval=inp["interval"], b_output_cm=True)
                        rec.append(o), cm.append(m), cmd.append(md)
                    else:
                        cm.append(blank), cmd.append(blank)
                    if sel and pos not in bad:
                        files = sorted(f for f in os.listdir(os.path.join(res, "OBIAresults")) if f.startswith("obiaresult") and f.endswith("_%s.npy" % tag))
                        breaks = np.array([np.load(os.path.join(res, "OBIAresults", f)).reshape(-1)[q] for f in files])
                        rb.append(st["real"]["obcold"](ds, *x, breaks.astype(np.int64), conse=inp["conse"], b_c2=b_c2, pos=pos))
                elif sel and pos not in bad:
                    if method == "COLD":
                        rec.append(st["real"]["cold"](ds, *x, t_cg=thr, conse=inp["conse"], b_c2=b_c2, pos=pos))
                    else:
                        packs.append(st["real"]["sccd"](ds, *x, t_cg=thr, conse=inp["conse"], b_c2=b_c2, pos=pos))
            for name, want in (("record_change_%s_cold.npy" % tag, rec if method != "SCCDOFFLINE" else []), ("CM_%s.npy" % tag, cm), ("CM_date_%s.npy" % tag, cmd),
                               ("obcold/record_change_%s_obcold.npy" % tag, rb)):
                f = os.path.join(res, name)
                if not want:
                    if os.path.exists(f):
                        fails.append(("superfluous-file", dict(file=name)))
                    continue
                want = np.hstack(want)
                found += len(want) > 0
                if not os.path.exists(f):
                    fails.append(("file-missing", dict(file=name)))
                    continue
                got = np.load(f)
                if got.shape != want.shape or got.tobytes() != want.tobytes():
                    fails.append(("file-content", dict(file=name, want=want[:2], got=got[:2], shapes=(want.shape, got.shape))))
            if method == "SCCDOFFLINE" and sel:
                got = []
                with open(os.path.join(res, "record_change_%s_sccd.npy" % tag), "rb") as f:
                    while True:
                        try:
                            got.append(pickle.load(f))
                        except EOFError:
                            break
                want = [tp.unindex_sccdpack(p) for p in packs]
                found += len(want) > 0
                if pickle.dumps(got) != pickle.dumps(want) and repr(got) != repr(want):
                    fails.append(("sccd-records", dict(block=b, want=len(want), got=len(got))))
        if not os.path.exists(os.path.join(res, "tile_processing_report.log")):
            fails.append(("no-report", {}))
    finally:
        tp.cold_detect, tp.sccd_detect, oa.obcold_reconstruct = keep
        shutil.rmtree(root)
    return fails[:4], case if found else None


SHARED, BASE = {}, {}


def schedules(case, st):
    """all schedules of one configuration"""
    from vlib import fsshim, tile
    from vlib.sched import explore_delays, Deadlock
    lay, empty, method, thematic, n, order, bound, part, only = case
    fsshim.install()
    root = tempfile.mkdtemp(prefix="t-", dir=SCRATCH)
    fails, digs, count, naps, steps = [], set(), 0, 0, 0
    try:
        inp = tile.make_inputs(root, *lay, empty=empty)
        area = os.path.join(root, "run")
        res = os.path.join(area, "res")

        def one(workers, choices, shared, order=None):
            os.mkdir(area)
            w = fsshim.World(area, [tile.worker(st, inp, res, r + 1, workers, method, thematic) for r in range(workers)], choices, shared, order=order)
            try:
                w.dead = None
                try:
                    w.run()
                except Deadlock as e:
                    w.dead = str(e)
                w.tree = fsshim.tree(res, tile.keep) if os.path.isdir(res) else {}
            finally:
                shutil.rmtree(area)
            return w
        base = one(1, (), frozenset()).tree
        shared = set(SHARED.get(case[:6], ()))
        grown = [True]

        def make(prefix):
            w = one(n, prefix, shared, order)
            new = w.conflicts() - shared
            if new:
                shared.update(new)
                grown[0] = True
            w.s.w = w
            return w.s

        def visit(s, prefix):
            nonlocal count, naps, steps
            if grown[0]:
                return True
            w = s.w
            count += 1
            naps += w.naps
            steps += s.steps
            bad = []
            if w.dead:
                bad.append(("never-ends", dict(waiting=w.dead)))
            for t in s.tasks:
                if t.error is not None:
                    bad.append(("worker-fails", dict(worker=w.order[t.idx] + 1, error=repr(t.error)[:300])))
            for r, k, by in w.torn_reads:
                bad.append(("incomplete-file-read", dict(reader=r + 1, file=k, writer=by + 1)))
            if not bad and w.tree != base:
                d = sorted(k for k in set(base) | set(w.tree) if base.get(k) != w.tree.get(k))
                bad.append(("result-differs", dict(files=d[:6])))
            if bad:
                fails.extend((k, dict(d, schedule=list(prefix), log=[x for x in s.log[-40:]])) for k, d in bad)
                return len(fails) >= 3
            if prefix:
                digs.add(hash((case[:6], prefix)))
            return False
        if only is not None:
            while grown[0]:     # (the points a schedule refers to depend on the shared paths)
                grown[0] = False
                make(tuple(only))
            visit(make(tuple(only)), tuple(only))
        else:
            while grown[0] and not fails:
                grown[0] = False
                count, naps, steps = 0, 0, 0
                digs.clear()
                explore_delays(make, bound, visit=visit, part=part)
        SHARED[case[:6]] = frozenset(shared)
    finally:
        shutil.rmtree(root)
    return fails, dict(digests=digs, schedules=count, waits=naps, transitions=steps, shared_paths=len(shared))


def init():
    from vlib import tile
    return tile.prepare()


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    cs = []
    L = [(2, 2, 1, 2), (1, 3, 2, 1), (3, 2, 1, 1)]
    for lay in L[:2] if q else L:
        for method, th in (("COLD", False), ("SCCDOFFLINE", False), ("OBCOLD", False), ("OBCOLD", True)):
            for empty in ((), (2,)):
                for bad in ((), (1, 4)):
                    cs.append((lay, empty, method, th, None, None, False, 0.99, bad))
            cs.append((lay, (), method, th, "1999-06-01", None, True, 0.99, ()))
            cs.append((lay, (), method, th, None, "2002-01-15", False, 0.99, ()))
            if method != "OBCOLD":
                cs.append((lay, (), method, th, None, None, False, 0.9, ()))
                cs.append((lay, (), method, th, "2010-06-01", None, False, 0.9, ()))
    run_cases(ctx, "single-worker", single, cs, init=init, case_timeout=200)
    cs = []

    def add(lay, empty, method, th, n, order, bound, shares=1):
        for i in range(shares):
            cs.append((lay, empty, method, th, n, order, bound, (i, shares), None))
    rev = lambda n: tuple(reversed(range(n)))
    fwd = lambda n: tuple(range(n))
    for n in (2, 3, 5):
        for o in (fwd(n), rev(n)):
            add((2, 2, 1, 1), (3,), "COLD", False, n, o, 2 if n < 5 else 1)
            add((2, 2, 1, 1), (), "SCCDOFFLINE", False, n, o, 1)
    for n in (2, 3) if q else (2, 3, 4, 5):
        for o in (fwd(n), rev(n)):
            add((2, 2, 1, 1), (), "OBCOLD", False, n, o, 1, 3 if q else 1)
            add((2, 1, 1, 2), (2,), "OBCOLD", False, n, o, 1, 2 if q else 1)
            add((2, 1, 2, 1), (), "OBCOLD", True, n, o, 1, 3 if q else 1)
            if not q:
                add((2, 2, 1, 1), (4,), "OBCOLD", True, n, o, 1, 2)
    for n in (16, 17, 20):
        add((2, 1, 1, 1), (), "OBCOLD", True, n, fwd(n), 0)
        add((2, 1, 1, 1), (), "OBCOLD", True, n, rev(n), 0)
    if not q:
        for o in (fwd(2), rev(2)):
            add((1, 2, 1, 1), (), "OBCOLD", False, 2, o, 2, 32)
            add((1, 2, 1, 1), (), "OBCOLD", True, 2, o, 2, 48)
            add((2, 2, 1, 1), (), "COLD", False, 3, o + (2,), 3, 8)
    ctx.assumptions.append("workers interact only through the result folder")
    run_cases(ctx, "schedules", schedules, cs, init=init, case_timeout=850 if q else 3000)
