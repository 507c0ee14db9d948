"""C10: every reachable S-CCD state satisfies the state invariant."""
import itertools

import numpy as np

from vlib import px, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """explicit exploration of the state graph of the real code: from offline results of every kind, every sequence of fed
observations (and alert confirmations) up to the bound is executed with sccd_update, and the state invariant, phrased over the
observations of the path, is evaluated in every state reached"""
NOTE = """Exhaustive over the start histories, alphabets, confirmation lengths and depths reported; batches and long runs as listed."""
RULE = """State = result of sccd_detect or sccd_update along one path.  Every state must satisfy the invariant with respect to the
usable observations fed so far and to its predecessor.  Distinct = different state contents."""


def invariant(p, prev, use, conse, start=None):
    """p: state; prev: predecessor or None; use: usable observations of the path [(date, v0..v5)].  -> [(key, detail)]"""
    f = []

    def bad(key, *d):
        f.append((key, [str(x)[:300] for x in d]))
    m, rec, mod, q = p.nrt_mode, p.rec_cg, p.nrt_model, p.nrt_queue
    k = states.kind(p)
    vals = {u[0]: list(u[1:]) for u in use}
    dates = [u[0] for u in use]
    if m not in (0, 1, 2, 3, 4, 5, 11, 12):
        bad("mode", m)
    has = (len(mod), len(q) > 0)
    if has != {"monitor": (1, False), "snow-monitor": (1, False), "queue": (0, True), "snow-queue": (0, True),
               "both": (1, True), "void": (0, False)}[k]:
        bad("contents", m, has)
    if k == "void" and use:
        bad("void", len(use))
    if len(q) > 240 or len(rec) > 40:
        bad("capacity", len(q), len(rec))
    # segments
    for i, r in enumerate(rec):
        if not r["t_start"] < r["t_break"] or int(r["t_break"]) not in vals or int(r["t_start"]) not in vals:
            bad("segment-dates", i, r["t_start"], r["t_break"])
        if i and r["t_start"] < rec[i - 1]["t_break"]:
            bad("segment-order", i, r["t_start"], rec[i - 1]["t_break"])
        if r["num_obs"] <= 0 or r["num_obs"] > sum(int(r["t_start"]) <= d < int(r["t_break"]) for d in dates):
            bad("segment-obs", i, r["num_obs"], sum(int(r["t_start"]) <= d < int(r["t_break"]) for d in dates))
        for n in ("coefs", "rmse", "magnitude"):
            if not np.isfinite(r[n]).all():
                bad("segment-finite", i, n)
        if (r["rmse"] < 0).any():
            bad("segment-rmse", i, r["rmse"])
    if k.startswith("snow") and len(rec):
        bad("snow-segments", len(rec))
    last_break = int(rec[-1]["t_break"]) if len(rec) else None
    if (np.asarray(p.min_rmse) < 0).any():
        bad("min-rmse", p.min_rmse)
    # the model and its window
    if len(mod):
        x = mod[0]
        n = 8 if k == "snow-monitor" else conse
        dd = x["obs_date_since1982"].astype(int) + states.LAUNCH
        win = dd[:n].tolist()
        if any(b <= a for a, b in zip(win, win[1:])) or any(d not in vals for d in win):
            bad("window-dates", win, dates[-n:])
        else:
            for j, d in enumerate(win):
                if x["obs"][:, j].tolist() != vals[d]:
                    bad("window-values", d, x["obs"][:, j], vals[d])
        if (x["obs"][:, n:] != 0).any() or (x["obs_date_since1982"][n:] != 0).any():
            bad("window-rest", x["obs_date_since1982"])
        if k != "both" and win[-1] != dates[-1]:
            bad("window-latest", win, dates[-3:])
        if k == "both" and win[0] != last_break:
            bad("window-break", win, last_break)
        ts = int(x["t_start_since1982"]) + states.LAUNCH
        if ts not in vals or (ts > win[0] and k != "snow-monitor"):
            bad("model-start", ts, win[0])
        if k == "monitor" and last_break is not None and ts < last_break:
            bad("model-before-break", ts, last_break)
        if k == "both" and last_break is not None and (ts != rec[-1]["t_start"] or x["num_obs"] != rec[-1]["num_obs"]):
            bad("model-of-break", ts, rec[-1]["t_start"], x["num_obs"], rec[-1]["num_obs"])
        upto = sum(d >= ts for d in dates) if k == "snow-monitor" else sum(ts <= d < win[0] for d in dates)
        if not 0 < x["num_obs"] <= upto:
            bad("model-obs", x["num_obs"], upto)
        for nme in ("covariance", "nrt_coefs", "H"):
            if not np.isfinite(x[nme]).all():
                bad("model-finite", nme)
        if (x["H"] < 0).any() or (x["covariance"].reshape(-1, 6, 6)[:, range(6), range(6)] < 0).any():
            bad("model-errors", x["H"], x["covariance"].reshape(-1, 6, 6)[:, range(6), range(6)])
        if x["conse_last"] > n or (x["conse_last"] == 0) != (x["norm_cm"] == -9999) or (x["conse_last"] == 0) != (x["cm_angle"] == -9999):
            bad("alert-fields", x["conse_last"], x["norm_cm"], x["cm_angle"])
        if x["conse_last"] and not (0 <= x["norm_cm"] and 0 <= x["cm_angle"] <= 18000):
            bad("alert-range", x["norm_cm"], x["cm_angle"])
        if k == "snow-monitor" and x["conse_last"]:
            bad("snow-alert", x["conse_last"])
    # the queue
    if len(q):
        qd = (q["clrx_since1982"].astype(int) + states.LAUNCH).tolist()
        if any(b <= a for a, b in zip(qd, qd[1:])) or any(d not in vals for d in qd):
            bad("queue-dates", qd[:5], qd[-5:])
        else:
            for row, d in zip(q, qd):
                if row["clry"].tolist() != vals[d]:
                    bad("queue-values", d, row["clry"], vals[d])
                    break
        if qd[-1] != dates[-1]:
            bad("queue-latest", qd[-3:], dates[-3:])
        if last_break is not None and qd[0] < last_break:
            bad("queue-before-break", qd[0], last_break)
        # before an initialisation can have been tried nothing may be dropped; the unexamined tail never
        since = [d for d in dates if last_break is None or d >= last_break]
        if (len(since) < 18 + conse or since[-1] - since[0] < 365) and len(since) <= 240 and qd != since:
            bad("queue-dropped", sorted(set(since) - set(qd))[:5], len(since))
        if qd[-min(conse, len(since)):] != since[-conse:]:
            bad("queue-tail", qd[-conse:], since[-conse:])
    # against the predecessor
    if prev is not None:
        if len(prev.rec_cg) > len(rec) or (len(prev.rec_cg) and px.rec_bytes(prev.rec_cg) != px.rec_bytes(rec[:len(prev.rec_cg)])):
            bad("segments-rewritten", len(prev.rec_cg), len(rec))
        if prev.nrt_mode != 0 and list(prev.min_rmse) != list(p.min_rmse):
            bad("min-rmse-changed", prev.min_rmse, p.min_rmse)
        if p.position != prev.position:
            bad("position", prev.position, p.position)
    return f


def step(name, p, date, tok, conse, c2, gap):
    """feed one token; -> (result, the row)"""
    date += 0 if tok.startswith("=") else gap
    row = states.feed_row(name, tok.lstrip("="), date)
    return px.update(p, states.arr([row]), conse=conse, b_c2=c2), row


def confirm(p):
    import pycold
    return pycold.sccd_identify(p, dist_conse=1, t_cg_scale100=1.0, t_angle_scale100=17999)[0]


def subtree(case):
    """explore all words of a path prefix"""
    name, conse, c2, gap, prefix, alpha, depth = case
    rows = states.initial(name)
    r = px.sccd(states.arr(rows), conse=conse, b_c2=c2)
    if r[0] != "ok":
        return [("detect-error", r)], None
    snow = states.is_snow(rows)
    p0 = r[1]
    st = dict(digests=set(), states=0, transitions=0)
    fails = []

    def visit(p, prev, use, path):
        st["states"] += 1
        st["digests"].add(px.digest(p))
        for k, d in invariant(p, prev, use, conse):
            if len(fails) < 20:
                fails.append((k, dict(path=path, mode=p.nrt_mode, detail=d)))

    def go(p, date, use, path, n):
        if n == 0:
            return
        for t in (alpha if len(path) >= len(prefix) else (prefix[len(path)],)):
            st["transitions"] += 1
            if t == "!":
                x = confirm(p)
                visit(x, p, use, path + ["!"])
                go(x, date, use, path + ["!"], n - 1)
                continue
            r, row = step(name, p, date, t, conse, c2, gap)
            if r[0] != "ok":
                fails.append(("update-error", dict(path=path + [t], result=r)))
                continue
            # a pixel without observations takes the kind of the first ones
            sn = states.kind(p).startswith("snow") if p.nrt_mode else states.is_snow([row])
            u = states.extend(use, row, c2, sn)
            if p.nrt_mode == 0 and not u and r[1].nrt_mode:
                fails.append(("void-left", dict(path=path + [t])))
            visit(r[1], p, u, path + [t])
            go(r[1], row[0], u, path + [t], n - 1)
    use = states.usable(rows, c2, snow)
    visit(p0, None, use, [])
    go(p0, rows[-1][0], use if p0.nrt_mode else [], [], depth)
    return fails, st


def batch(case):
    """long runs, in batches"""
    name, conse, word, size = case
    rows = states.initial(name)
    p = px.sccd(states.arr(rows), conse=conse)[1]
    st = dict(digests=set(), states=1, transitions=0)
    use = states.usable(rows, False, states.is_snow(rows))
    fails = list(invariant(p, None, use, conse))
    date = rows[-1][0]
    for i in range(0, len(word), size):
        new = []
        for t in word[i:i + size]:
            date += 16
            new.append(states.feed_row(name, t, date))
        if date - states.LAUNCH > 32000:
            break
        r = px.update(p, states.arr(new), conse=conse)
        st["transitions"] += 1
        if r[0] != "ok":
            if len(p.rec_cg) + len(new) // conse < 40:
                fails.append(("update-error", dict(at=i, result=r, mode=p.nrt_mode, segments=len(p.rec_cg), queue=len(p.nrt_queue))))
            break
        sn = states.kind(p).startswith("snow") if p.nrt_mode else states.is_snow(new)
        for row in new:
            use = states.extend(use, row, False, sn)
        for k, d in invariant(r[1], p, use, conse):
            fails.append((k, dict(at=i, mode=r[1].nrt_mode, detail=d)))
        p = r[1]
        st["states"] += 1
        st["digests"].add(px.digest(p))
        if len(fails) > 10:
            break
    return fails, st


def run(ctx):
    q = ctx.quick

    def go(part, cases):
        run_cases(ctx, part, subtree, cases, case_timeout=300,
                  describe=lambda c: dict(zip(("history", "conse", "c2", "gap", "prefix", "alphabet", "depth"), c)))
    A1 = ("A", "B", "x", "c", "n", "=B", "o", "!")
    A2 = ("A", "B", "x")
    names = list(states.INIT)
    d1, d2 = (4, 7) if q else (6, 10)
    go("mixed", [(n, c, c2, 16, (a,), A1, d1) for n in names for c in ((1, 4, 8) if q else range(1, 9)) for c2 in (False, True)
                 if not (q and c2 and c != 4) for a in A1])
    go("runs", [(n, c, False, g, (a, b), A2, d2) for n in names for c in ((2, 3, 5) if q else range(1, 9)) for g in ((16,) if q else (5, 16, 48))
                for a in A2 for b in A2])
    words = {"alternate": "AB" * 150, "blocks": ("A" * 30 + "B" * 30) * 8, "short-blocks": ("A" * 22 + "B" * 22) * 20, "stable": "A" * 300,
             "noisy": "AxBAAxxBcAnBB" * 24, "snow": "n" * 300, "snow-clear": "nA" * 100, "thirds": "ABC" * 90, "drift": "AAAGGGCCC" * 30,
             "clouds": "c" * 40 + "A" * 60, "none": "c" * 300}
    run_cases(ctx, "long", batch, [(n, c, w, s) for n in names for w in words.values()
                                   for c, s in (((1, 60), (3, 13), (6, 60), (8, 13)) + (((1, 1), (4, 1)) if n in ("monitor", "queue", "snow")
                                                                                     and "cccc" not in w else ()) if q else
                                                itertools.product(range(1, 9), (1, 2, 5, 13, 30, 60, 100, 239, 300)))], case_timeout=300,
              describe=lambda c: dict(zip(("history", "conse", "word", "size"), c)))
    ctx.coverage["exhaustive"] = True
