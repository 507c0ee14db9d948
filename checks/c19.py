"""C19: tile processing that is interrupted and started again."""
import hashlib
import os
import shutil
import tempfile

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = """explicit-state exploration of the crash states of the real driver: the folder as it stands before every single
file-system change of a run (files also empty or cut in half), for all small layouts, methods, worker counts and several
schedules; from every distinct state the whole program is started again under the controlled scheduler, for both starting
orders and all schedules within a delay bound, and has to finish with the files of an uninterrupted run"""
NOTE = """What a restart depends on is the folder alone, so states are identified by its content.  Not compared: the report
(times) and the classifier's files named tmp_, which an interrupted clean-up may leave behind.  Marked work must not be
repeated: no pixel function is called for a finished block and no file of a marked block or date is written again.  The
order of system calls is the order of their effect (no torn directory entries, no reordering by the disk)."""
RULE = """A case is one configuration and share of its crash states; every restart is one execution of the whole driver.
Non-trivial: the folder existed at the crash and something was left to do; distinct by (configuration, state, schedule)."""

SCRATCH = None


def keep(rel):
    return rel.endswith("tile_processing_report.log") or "/tmp_step" in rel or "/tmp_feature" in rel or "/tmp_yearly" in rel


def restore(root, state):
    for rel in sorted(state):
        p = os.path.join(root, rel)
        if rel.endswith("/"):
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(state[rel])


def digest(state):
    h = hashlib.sha1()
    for k in sorted(state):
        h.update(k.encode() + b"\0" + hashlib.sha1(state[k]).digest())
    return h.digest()


def marked(state, inp, method):
    """{path: why} that must not be written again, and pixels that must not be processed again"""
    out, pix = {}, set()
    for b in range(1, inp["nbx"] * inp["nby"] + 1):
        if "COLD_block%d_finished.txt" % b not in state:
            continue
        by, bx = (b - 1) // inp["nbx"], (b - 1) % inp["nbx"]
        tag = "x%d_y%d" % (bx + 1, by + 1)
        for f in ("record_change_%s_cold.npy", "record_change_%s_sccd.npy", "CM_%s.npy", "CM_date_%s.npy"):
            out[f % tag] = "block %d" % b
        for q in range(inp["bh"] * inp["bw"]):
            pix.add(inp["nc"] * (by * inp["bh"] + q // inp["bw"]) + bx * inp["bw"] + q % inp["bw"] + 1)
    for k in state:
        if k.startswith("OBIAresults/tmp_OBIA_"):
            d = k.split("_")[2]
            for f in state:
                if f.startswith("OBIAresults/obiaresult_%s_" % d):
                    out[f] = "date " + d
    return out, pix


def case(c, st):
    from vlib import fsshim, tile
    from vlib.sched import Deadlock, explore_delays
    lay, empty, method, thematic, n, order, walk, bound, part, every, double, only = c
    fsshim.install()
    root = tempfile.mkdtemp(prefix="t-", dir=SCRATCH)
    area = os.path.join(root, "run")
    res = os.path.join(area, "res")
    fails, digs, cnt = [], set(), dict(restarts=0, crash_states=0, runs=0, transitions=0)
    try:
        inp = tile.make_inputs(root, *lay, empty=empty)

        def one(workers, choices=(), shared=frozenset(), order=None, state=None, snaps=None):
            os.mkdir(area)
            if state:
                restore(area, state)
            on = None
            if snaps is not None:
                def on():
                    t = fsshim.tree(area)
                    snaps.setdefault(digest(t), t)
            w = fsshim.World(area, [tile.worker(st, inp, res, r + 1, workers, method, thematic) for r in range(workers)], choices, shared, order=order,
                             halves=snaps is not None, on_change=on)
            del st["calls"][:]
            w.dead = None
            try:
                try:
                    w.run()
                except Deadlock as e:
                    w.dead = str(e)
                w.all = fsshim.tree(area)
            finally:
                shutil.rmtree(area)
            w.calls = list(st["calls"])
            cnt["transitions"] += w.s.steps
            return w

        def final(t):
            return {k: v for k, v in t.items() if not keep(k)}
        base = final(one(1).all)
        # the states a run can be interrupted in
        states, order_of = {}, []
        shared = set()
        if walk:
            while True:
                w = one(n, (), frozenset(shared), order)
                new = w.conflicts() - shared
                if not new:
                    break
                shared |= new

        def make(prefix):
            w = one(n, prefix, frozenset(shared), order, snaps=states)
            w.s.w = w
            return w.s
        explore_delays(make, walk, visit=lambda s, p: cnt.__setitem__("runs", cnt["runs"] + 1))
        keys = sorted(states, key=lambda d: (len(states[d]), sum(map(len, states[d].values())), d))
        if double:      # the first interruption is fixed, the second one enumerated
            first = {}
            for d in keys[double[0]::double[1]]:
                one(n, (), frozenset(), order, state=states[d], snaps=first)
            for d in list(first):
                if d in states:
                    del first[d]
            states = first
            keys = sorted(states, key=lambda d: (len(states[d]), sum(map(len, states[d].values())), d))
        cnt["crash_states"] = len(keys[part[0]::part[1]])
        rsh = set()

        def restart(d, choices, o):
            w = one(n, choices, frozenset(rsh), o, state=states[d])
            w.s.w = w
            return w

        def judge(d, w, prefix, o):
            cnt["restarts"] += 1
            bad = []
            if w.dead:
                bad.append(("restart-never-ends", dict(waiting=w.dead)))
            for t in w.s.tasks:
                if t.error is not None:
                    bad.append(("restart-fails", dict(worker=w.order[t.idx] + 1, error=repr(t.error)[:300])))
            for r, k, by in w.torn_reads:
                bad.append(("incomplete-file-read", dict(reader=r + 1, file=k, writer=by + 1)))
            got = final(w.all)
            if not bad and got != base:
                bad.append(("result-differs", dict(files=sorted(k for k in set(base) | set(got) if base.get(k) != got.get(k))[:6])))
            out, pix = marked({k[4:]: v for k, v in states[d].items() if k.startswith("res/")}, inp, method)
            again = sorted({p for tag, p in w.calls if tag in ("cold", "sccd") and p in pix})
            if again:
                bad.append(("finished-block-repeated", dict(pixels=again[:6])))
            wr = sorted(k for k in out if "w" in w.acc.get("res/" + k, {}).values())
            if wr:
                bad.append(("finished-work-repeated", dict(files=wr[:4], marked=out[wr[0]])))
            if bad:
                # the state that fails, by what distinguishes it
                s = states[d]
                odd = sorted(k for k in s if not k.endswith("/") and k in w.all and not keep(k) and s[k] != base.get(k))
                info = dict(state=len(s), incomplete=odd[:4], order=list(o), schedule=list(prefix), newest=sorted(s)[-3:], log=w.s.log[-30:])
                fails.extend((k, dict(x, **info)) for k, x in bad)
            elif len(states[d]) > 1 and final(states[d]) != base:
                digs.add(hash((c[:7], d, tuple(o), prefix)))
            return len(fails) >= 3

        mine = keys[part[0]::part[1]]
        if only is not None:
            mine = [k for k in mine if k.hex() == only]
        fwd = tuple(range(n))
        for i, d in enumerate(mine):
            if fails:
                break
            for o in ((fwd, fwd[::-1]) if n > 1 else (fwd,)):
                b = bound if i % every == 0 else 0
                if b == 0 or n == 1:
                    if judge(d, restart(d, (), o), (), o):
                        break
                    continue
                while True:     # (shared paths of this restart, to a fixed point)
                    k0 = dict(cnt), set(digs), list(fails)
                    grown = []

                    def mk(prefix):
                        w = restart(d, prefix, o)
                        new = w.conflicts() - rsh
                        if new:
                            rsh.update(new)
                            grown.append(1)
                        return w.s

                    def visit(s, prefix):
                        return bool(grown) or judge(d, s.w, prefix, o)
                    explore_delays(mk, b, visit=visit)
                    if not grown or fails:
                        break
                    cnt.update(k0[0])
                    digs.clear()
                    digs.update(k0[1])
        for f in fails:
            f[1]["state_id"] = d.hex()
    finally:
        shutil.rmtree(root)
    return fails, dict(digests=digs, **cnt)


def init():
    from vlib import tile
    return tile.prepare()


def run(ctx):
    global SCRATCH
    SCRATCH = str(ctx.scratch)
    q = ctx.quick
    cs = []

    def add(lay, empty, method, th, n, order=None, walk=0, bound=0, shares=1, every=1, double=None):
        for i in range(shares):
            cs.append((lay, empty, method, th, n, order or tuple(range(n)), walk, bound, (i, shares), every, double, None))
    for n in (1, 2, 3):
        add((2, 2, 1, 1), (3,), "COLD", False, n, walk=0 if n == 1 else 1)
        add((2, 2, 1, 1), (), "SCCDOFFLINE", False, n, walk=0 if n == 1 else 1)
    add((2, 1, 1, 2), (), "OBCOLD", False, 1)
    add((2, 1, 1, 2), (2,), "OBCOLD", True, 1, shares=2)
    add((2, 1, 1, 1), (), "OBCOLD", True, 2, shares=3)
    add((2, 1, 1, 1), (), "OBCOLD", True, 2, (1, 0), shares=3)
    add((2, 1, 1, 1), (), "OBCOLD", True, 2, bound=1, shares=8, every=9 if q else 1)
    ctx.assumptions.append("a crash stops all workers; what was written before it stays")
    run_cases(ctx, "restarts", case, cs, init=init, case_timeout=850 if q else 3000)
