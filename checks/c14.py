"""C14: alerts given by sccd_identify follow the monitored state."""
import itertools

import numpy as np

from vlib import px, smodel, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """explicit exploration of the reachable S-CCD states (offline starts of every kind, all words of fed observations up to the
bound); in every state all combinations of requested run length and of limits placed on both sides of the state's own magnitude, angle
and per-band changes are asked for and compared with the alert rule evaluated from the fed observations"""
NOTE = """Exhaustive over the start histories, alphabets, confirmation lengths, depths and limit grids reported."""
RULE = """date = date of the first of the latest anomalous observations if the state is a standard monitoring state (or has just recorded
the break), its run is long enough, its magnitude above and its angle below the limits and the change is not a greening; else 0.  Only a
state in standard monitoring mode changes its mode (to reported), only when asked; nothing else changes and a second question gives 0."""


def rule(p, conse, use, dist, tcg, band, angle):
    """-> (date or 0, mode after, near tie)"""
    if states.kind(p) not in ("monitor", "both") or p.nrt_mode // 10 == 1:
        return 0, p.nrt_mode, False
    x = p.nrt_model[0]
    k = int(x["conse_last"])
    if k < dist or not float(x["norm_cm"]) > tcg or not float(x["cm_angle"]) < angle:
        return 0, p.nrt_mode, False
    # the run: the last k observations of the window
    last = int(x["obs_date_since1982"][conse - 1]) + states.LAUNCH
    run = [u for u in use if u[0] <= last][-k:]
    cft = x["nrt_coefs"].astype(float)
    med = np.median([np.array(u[1:7], float) - smodel.predict(cft, u[0]) for u in run], axis=0)
    near = bool(min(abs(med[2] + band), abs(med[3] - band), abs(med[4] + band)) < 0.05)
    if med[2] < -band and med[3] > band and med[4] < -band:
        return 0, p.nrt_mode, True if near else 'greening'
    return run[0][0], p.nrt_mode + 10 if p.nrt_mode == 1 else p.nrt_mode, near


def limits(p, conse, use):
    """limits on both sides of the state's own values"""
    t, a, b = [0.5, 1508.6], [1, 4500, 17999], [-200.0, 0.0]
    if len(p.nrt_model) and p.nrt_model[0]["conse_last"]:
        x = p.nrt_model[0]
        n, g, k = int(x["norm_cm"]), int(x["cm_angle"]), int(x["conse_last"])
        t += [v for v in (n - 1, n - 0.25, n, n + 1) if v > 0]
        a += [v for v in (g - 1, g, g + 1) if 0 < v < 18000]
        last = int(x["obs_date_since1982"][conse - 1]) + states.LAUNCH
        run = [u for u in use if u[0] <= last][-k:]
        if run:
            cft = x["nrt_coefs"].astype(float)
            m = np.median([np.array(u[1:7], float) - smodel.predict(cft, u[0]) for u in run], axis=0)
            b += [v + e for v in (-m[2], m[3], -m[4]) for e in (-0.5, 0.5)]
    return t, a, b


def subtree(case):
    import pycold
    name, conse, c2, gap, prefix, alpha, depth, small = case
    st = dict(digests=set(), states=0, questions=0, alerts=0, greenings=0, near_ties=0)
    fails = []
    rows0 = states.initial(name)
    snow = states.is_snow(rows0)
    use0 = states.usable(rows0, c2, snow)

    def visit(p, path, date):
        st["states"] += 1
        st["digests"].add(px.digest(p))
        d, use = rows0[-1][0], use0
        for t in path:
            if t != "!":
                d += gap
                use = states.extend(use, states.feed_row(name, t, d), c2, snow)
        before = px.freeze(p)
        T, A, B = limits(p, conse, use)
        full = [(dist, t, b, a) for dist in (1, 2, 3, 4, 5, 6) for t in T for b in B for a in A]
        if small:       # around the state's own values one at a time
            lo = (1, T[0], -1e9, A[2])
            full = [(dist,) + lo[1:] for dist in range(1, 7)] + [(1, t, -1e9, A[2]) for t in T] + [(1, T[0], b, A[2]) for b in B] \
                + [(1, T[0], -1e9, a) for a in A] + [(6, 1508.6, -200, 4500)]
            full += [(dist, T[-1], B[-1], A[-1]) for dist in range(1, 7)]
        for dist, t, b, a in full:
            st["questions"] += 1
            want, mode, near = rule(p, conse, use, dist, t, b, a)
            if near == 'greening':
                st["greenings"] += 1
            elif near:
                st["near_ties"] += 1
                continue
            kw = dict(dist_conse=dist, t_cg_scale100=t, t_cg_singleband_scale1000=b, t_angle_scale100=a)
            for tr in (True, False):
                q, got = pycold.sccd_identify(p, transform_mode=tr, **kw)
                if int(got) != want:
                    fails.append(("date", dict(path=path, mode=p.nrt_mode, asked=kw, got=int(got), want=want)))
                if q.nrt_mode != (mode if tr else p.nrt_mode) or px.freeze(q._replace(nrt_mode=p.nrt_mode)) != before:
                    fails.append(("state", dict(path=path, mode=[p.nrt_mode, q.nrt_mode], want=mode, asked=kw, transform=tr)))
                if tr and q.nrt_mode != p.nrt_mode:
                    st["alerts"] += 1
                    q2, again = pycold.sccd_identify(q, transform_mode=tr, **kw)
                    if int(again) != 0 or px.freeze(q2) != px.freeze(q):
                        fails.append(("again", dict(path=path, asked=kw, got=int(again))))
            if len(fails) > 10:
                return True
        # the defaults are the documented ones
        if px.freeze(pycold.sccd_identify(p)) != px.freeze(pycold.sccd_identify(p, 6, 1508.6, -200, 4500, True)):
            fails.append(("defaults", dict(path=path)))
        if px.freeze(p) != before:
            fails.append(("original-changed", dict(path=path)))
    fails += states.walk(name, conse, c2, gap, prefix, alpha, depth, visit)
    return fails, st


def run(ctx):
    q = ctx.quick
    names = list(states.INIT)
    A = ("A", "B", "C", "G", "x", "c", "!")

    def go(part, cs):
        run_cases(ctx, part, subtree, cs, case_timeout=600,
                  describe=lambda c: dict(zip(("history", "conse", "c2", "gap", "prefix", "alphabet", "depth", "one_at_a_time"), c)))
    go("wide", [(n, c, False, 16, (a,), A, 3 if q else 5, True) for n in names for c in ((1, 3, 6, 8) if q else range(1, 9)) for a in A])
    mon = [n for n in names if not n.startswith(("snow", "void", "queue", "late"))]
    go("runs", [(n, c, c2, 16, (a,), ("B", "G") if n != "green" else ("A", "B", "G"), min(c + 2, 7 if q else 10), True)
                for n in mon for c in range(1, 9) for c2 in ((c == 3,) if q else (False, True)) for a in "BG"])
    go("grids", [(n, c, False, 16, (a,), ("A", "B", "G"), 3 if q else 4, False) for n in ("monitor", "run2", "rebuilt", "green", "broken", "snowfull", "queue")
                 for c in (2, 5, 7) for a in "ABG"])
    ctx.coverage["exhaustive"] = True
