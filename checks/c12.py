"""C12: S-CCD breaks and the anomaly counter follow the runs of deviating observations."""
import itertools

import numpy as np

from vlib import px, series, smodel, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """exhaustive enumeration of tails of following, deviating and cloudy observations, each run offline and one by one
through the real code and compared with a counting automaton; and an explicit exploration of the update state graph in lock step
with an independent model of one monitoring step (state-space filter, window test), comparing the complete state of the code with the
model's after every transition"""
NOTE = """Exhaustive within the reported histories, confirmation lengths and tail lengths.  Transitions whose decision lies within
2e-4 of a threshold are counted and not compared."""
RULE = """Tails: a break is recorded exactly when conse consecutive usable observations deviate and one more usable observation
followed; it is dated at the first of them; conse_last is the number of trailing deviating observations, at most conse.  Transitions:
every field of the successor state equals the model's.  Distinct = different state contents."""
BASE = 40
TEX = {"quiet": (1.0, 0.3), "flat": (0.3, 0.3), "season": (2.5, 0.3)}


def row(tok, date, tex):
    """quiet observations, so that following means norm below and deviating above every limit"""
    if tok in series.REGIMES:
        return (date,) + tuple(series.values(date, tok, *TEX[tex])) + (0,)
    return series.token_row(tok, date)


def expected(tail, conse):
    """-> (index of the first observation of the confirmed run or None, trailing anomalies)"""
    u = [(i, t) for i, t in enumerate(tail) if t in "AB"]
    for k in range(len(u) - conse):
        if all(t == "B" for _, t in u[k:k + conse]):
            return u[k][0], None
    n = 0
    for _, t in reversed(u):
        if t != "B" or n == conse:
            break
        n += 1
    return None, n


def tails(case):
    conse, tex, c2, b1982, prefix, depth, alpha = case
    st = dict(digests=set(), transitions=0, tails=0)
    base = [row("A", 724500 + b1982 + 16 * k, tex) for k in range(BASE)]
    p0 = px.sccd(states.arr(base), conse=conse, b_c2=c2)
    if p0[0] != "ok" or p0[1].nrt_mode != 1:
        return [("start", p0[0])], st
    fails = []

    def judge(p, tail, how, rows):
        st["digests"].add(px.digest(p))
        st["tails"] += 1
        brk, n = expected(tail, conse)
        recs = p.rec_cg
        if len(recs) != (brk is not None):
            fails.append(("%s-breaks" % how, dict(tail="".join(tail), breaks=[int(r["t_break"]) for r in recs], expected=brk)))
            return
        if brk is not None:
            d = rows[brk][0]
            if int(recs[0]["t_break"]) != d or int(recs[0]["t_start"]) != base[0][0]:
                fails.append(("%s-break-date" % how, dict(tail="".join(tail), got=[int(recs[0][k]) for k in ("t_start", "t_break")], want=d)))
            if recs[0]["num_obs"] > BASE + sum(t == "A" for t in tail[:brk]):
                fails.append(("%s-break-obs" % how, dict(tail="".join(tail), got=int(recs[0]["num_obs"]))))
            return
        if p.nrt_mode != 1 or int(p.nrt_model[0]["conse_last"]) != n:
            fails.append(("%s-counter" % how, dict(tail="".join(tail), mode=p.nrt_mode, got=[int(x["conse_last"]) for x in p.nrt_model], want=n)))
    full = []

    def go(p, rows, tail, n):
        if tail:
            judge(p, tail, "online", rows)
            r = px.sccd(states.arr(base + rows), conse=conse, b_c2=c2)
            if r[0] != "ok":
                fails.append(("offline-error", r))
            else:
                judge(r[1], tail, "offline", rows)
            if n == 0:
                r = px.update(p0[1], states.arr(rows), conse=conse, b_c2=c2)
                judge(r[1], tail, "at-once", rows)
        if n == 0 or len(fails) > 10:
            return
        for t in (alpha if len(tail) >= len(prefix) else (prefix[len(tail)],)):
            new = row(t, base[-1][0] + 16 * (len(tail) + 1), tex)
            r = px.update(p, states.arr([new]), conse=conse, b_c2=c2)
            st["transitions"] += 1
            if r[0] != "ok":
                fails.append(("update-error", r))
                continue
            go(r[1], rows + [new], tail + [t], n - 1)
    go(p0[1], [], [], depth)
    return fails, st


def graph(case):
    name, conse, c2, gap, prefix, alpha, depth, par = case
    rows = states.initial(name)
    kw = dict(conse=conse, b_c2=c2, **par)
    r = px.sccd(states.arr(rows), **{k: v for k, v in kw.items() if k != "predictability_tcg"})
    if r[0] != "ok":
        return [("detect-error", r)], None
    mk = dict(t_cg=par.get("t_cg", 15.0863), gate=par.get("gate_tcg", 9.236), pred_tcg=par.get("predictability_tcg", 9.236))
    st = dict(digests=set(), transitions=0, compared=0, near_ties=0, queue_steps=0, breaks=0, skipped=0, absorbed=0, unusable=0)
    fails = []

    def judge(p, q, row, path):
        """p -> q by feeding row"""
        def bad(k, *d):
            fails.append((k, dict(path="".join(path), mode=[p.nrt_mode, q.nrt_mode], detail=[str(x)[:300] for x in d])))
        kind = states.kind(p)
        one = states.usable([row], c2, False)
        if kind.startswith("snow") or kind in ("void", "both"):
            if len(q.rec_cg) != len(p.rec_cg):
                bad("break-while-%s" % kind, len(p.rec_cg), len(q.rec_cg))
            return
        last = int(p.nrt_queue[-1]["clrx_since1982"] if kind == "queue" else p.nrt_model[0]["obs_date_since1982"][conse - 1]) + smodel.LAUNCH
        if not one or row[0] <= last:
            st["unusable"] += 1
            if px.freeze(p) != px.freeze(q):
                bad("unusable-observation-counts", row)
            return
        if kind == "queue":
            st["queue_steps"] += 1
            if states.kind(q) == "queue":
                if len(q.rec_cg) != len(p.rec_cg):
                    bad("break-in-queue", len(p.rec_cg), len(q.rec_cg))
            elif len(q.rec_cg) > len(p.rec_cg) + 1:
                bad("breaks-after-queue", len(p.rec_cg), len(q.rec_cg))
            return
        R = smodel.step(p.nrt_model[0], p.min_rmse, p.nrt_mode, conse, one[0], **mk)
        if R.margin < 2e-4:
            st["near_ties"] += 1
            return
        st["compared"] += 1
        st[{"break": "breaks", "noise": "skipped", "regular": "absorbed"}[R.kind]] += 1
        for d in smodel.compare(R, q, p):
            bad("step-" + d[0], R.kind, d)

    def go(p, date, path, n):
        if n == 0 or len(fails) > 10:
            return
        for t in (alpha if len(path) >= len(prefix) else (prefix[len(path)],)):
            if t == "!":
                import pycold
                x = pycold.sccd_identify(p, dist_conse=1, t_cg_scale100=1.0, t_angle_scale100=17999)[0]
                if x.nrt_mode != p.nrt_mode:
                    go(x, date, path + ["!"], n - 1)
                continue
            d = date + (0 if t.startswith("=") else gap)
            new = states.feed_row(name, t.lstrip("="), d)
            r = px.update(p, states.arr([new]), **kw)
            st["transitions"] += 1
            if r[0] != "ok":
                fails.append(("update-error", dict(path="".join(path) + t, result=r)))
                continue
            st["digests"].add(px.digest(r[1]))
            judge(p, r[1], new, path + [t])
            go(r[1], d, path + [t], n - 1)
    go(r[1], rows[-1][0], [], depth)
    return fails, st


def run(ctx):
    q = ctx.quick
    cs = []
    for conse in range(1, 9):
        for tex in TEX:
            if q and tex != "quiet":
                cs += [(conse, tex, c2, 0, (a,), min(conse + 3, 8), "AB") for a in "AB" for c2 in (False, True)]
            else:
                d = (7 if conse < 6 else 6) if q else 9
                cs += [(conse, tex, False, 0, (a, b), d, "ABc") for a in "ABc" for b in "ABc"]
        # long runs with one interruption each, which the plain depth does not reach
        cs += [(conse, "quiet", False, 0, tuple("B" * k), k + 3, "ABc") for k in range(3, conse + 1)]
        if q:
            cs += [(conse, "quiet", c2, 5000, (a,), conse + 3 if conse < 6 else 8, "AB") for a in "AB" for c2 in (False, True)]
        else:
            cs += [(conse, "quiet", c2, 5000, (a, b), 11, "AB") for a in "AB" for b in "AB" for c2 in (False, True)]
    run_cases(ctx, "tails", tails, cs, case_timeout=600,
              describe=lambda c: dict(zip(("conse", "texture", "c2", "start", "prefix", "depth", "alphabet"), c)))
    names = [n for n in states.INIT if not n.startswith("snow") and n != "void"]
    D = dict

    def go(part, cases):
        run_cases(ctx, part, graph, cases, case_timeout=600,
                  describe=lambda c: dict(zip(("history", "conse", "c2", "gap", "prefix", "alphabet", "depth", "parameters"), c)))
    go("steps", [(n, c, False, 16, (a,), ("A", "B", "C", "x"), 5 if q else 7, D()) for n in names for c in range(1, 9) for a in "ABCx"])
    go("mixed", [(n, c, c2, g, (a,), ("A", "B", "x", "c", "=B", "G", "o", "!"), 4 if q else 5, D())
                 for n in names for c in ((1, 3, 6) if q else range(1, 9)) for c2 in (False, True) for g in (8, 32, 150)
                 for a in ("A", "B", "x", "c", "=B", "G", "o", "!")])
    par = [D(t_cg=a, gate_tcg=b, predictability_tcg=c) for a in (9.236, 20.515, 40.0) for b in (5.0, 15.0863) for c in (4.0, 30.0)]
    go("parameters", [(n, c, False, 16, (a,), ("A", "B", "C", "!"), 6 if q else 7, pr)
                      for n in ("monitor", "dense", "run1", "rebuilt") for c in ((2, 4) if q else (1, 2, 3, 4, 6)) for a in ("A", "B", "C", "!") for pr in par])
    ctx.coverage["exhaustive"] = True
