"""C11: grouping of the observations fed to an S-CCD state does not matter."""
import itertools

import numpy as np

from vlib import px, smodel, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """explicit exploration of the update state graph: for every word of fed observations up to the bound the set of all states
that any grouping of the word into consecutive updates reaches is computed on the real code, and all states of a set are compared;
every update is repeated from the same state and the state it started from compared with its copy"""
NOTE = """Exhaustive over the start histories, alphabets, confirmation lengths and word lengths reported; every composition of every word
is covered (states reached by several groupings are expanded once)."""
RULE = """All groupings give the same segments and equivalent states: same mode (a break just recorded and the queue that follows it
are one), same window, counters, queue, and the same model up to the rounding of the stored state.  Updates without usable
observations give the same state bit for bit.  Distinct = different state contents."""
DAYS = 16


# start histories without a noise level or snow model of their own: those take it from the observations first at hand, so
# what is estimated from them is not compared
FIRST = ("void", "snow", "snow17", "snowmix")
LATER = ("min_rmse", "H", "rmse_sum", "curve", "covariance")


def mode_class(m):
    """the state that has just recorded a break still shows the broken model; whether a reported pixel is predictable
    again is asked at the end of every update"""
    return {5: 12, 11: 1}.get(m, m)


def differences(p, q):
    """p, q: states that should be equivalent"""
    f = []

    def near(n, a, b, rel, ab):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape or not (np.abs(a - b) <= ab + rel * np.abs(b)).all():
            f.append((n, a.tolist(), b.tolist()))

    def equal(n, a, b):
        if np.asarray(a).tolist() != np.asarray(b).tolist():
            f.append((n, np.asarray(a).tolist(), np.asarray(b).tolist()))
    equal("mode", mode_class(p.nrt_mode), mode_class(q.nrt_mode))
    equal("min_rmse", p.min_rmse, q.min_rmse)
    equal("position", p.position, q.position)
    if len(p.rec_cg) != len(q.rec_cg):
        f.append(("segments", [int(x["t_break"]) for x in p.rec_cg], [int(x["t_break"]) for x in q.rec_cg]))
        return f
    for a, b in zip(p.rec_cg, q.rec_cg):
        for n in ("t_start", "t_break", "num_obs"):
            equal("segment-" + n, a[n], b[n])
        near("segment-coefs", a["coefs"][:, 2:], b["coefs"][:, 2:], 1e-3, 0.2)
        for d in (int(a["t_start"]), int(a["t_break"])):
            near("segment-curve", smodel.predict(a["coefs"].astype(float), d), smodel.predict(b["coefs"].astype(float), d), 1e-3, 0.3)
        near("segment-rmse", a["rmse"], b["rmse"], 1e-3, 0.05)
        near("segment-magnitude", a["magnitude"], b["magnitude"], 1e-3, 0.5)
    if f:
        return f
    if len(p.nrt_queue) != len(q.nrt_queue) or (len(p.nrt_queue) and px.rec_bytes(p.nrt_queue) != px.rec_bytes(q.nrt_queue)):
        f.append(("queue", len(p.nrt_queue), len(q.nrt_queue)))
    if 5 in (p.nrt_mode, q.nrt_mode) and p.nrt_mode != q.nrt_mode:
        return f
    if len(p.nrt_model) != len(q.nrt_model):
        f.append(("model", len(p.nrt_model), len(q.nrt_model)))
    elif len(p.nrt_model):
        x, y = p.nrt_model[0], q.nrt_model[0]
        for n in ("t_start_since1982", "num_obs", "obs", "obs_date_since1982", "conse_last"):
            equal(n, x[n], y[n])
        near("H", x["H"], y["H"], 1e-5, 1e-6)
        near("rmse_sum", x["rmse_sum"], y["rmse_sum"], 1e-3, 5)
        near("norm_cm", x["norm_cm"], y["norm_cm"], 2e-3, 3)
        near("cm_angle", x["cm_angle"], y["cm_angle"], 2e-3, 10 if min(x["cm_angle"], y["cm_angle"]) > 500 else 60)
        d0 = int(x["obs_date_since1982"][0]) + states.LAUNCH
        for d in (d0, d0 + 91, d0 + 365):
            near("curve", smodel.predict(x["nrt_coefs"].astype(float), d), smodel.predict(y["nrt_coefs"].astype(float), d), 1e-3, 0.3)
        a, b = x["covariance"].reshape(6, 6, 6).astype(float), y["covariance"].reshape(6, 6, 6).astype(float)
        iu = np.triu_indices(6)
        dg = np.sqrt(np.abs(b[:, range(6), range(6)]))
        if (np.abs(a - b)[:, iu[0], iu[1]] > 1e-3 * dg[:, iu[0]] * dg[:, iu[1]] + 1e-12).any():
            f.append(("covariance",))
    return f


def reinit_possible(p, q):
    """the step p -> q started a new model"""
    return states.kind(p) in ("queue", "both") and states.kind(q) == "monitor"


def subtree(case):
    name, conse, c2, gaps, prefix, alpha, depth, start, empties = case
    rows = states.initial(name)
    kw = dict(conse=conse, b_c2=c2, pos=7)
    r = px.sccd(states.arr(rows), **kw)
    if r[0] != "ok":
        return [("detect-error", r)], None
    p0, date = r[1], rows[-1][0]
    for t in start:             # start states only updates reach
        if t == "!":
            import pycold
            p0 = pycold.sccd_identify(p0, dist_conse=1, t_cg_scale100=1.0, t_angle_scale100=17999)[0]
            continue
        date += DAYS
        p0 = px.update(p0, states.arr([states.feed_row(name, t, date)]), **kw)[1]
    snow = states.kind(p0).startswith("snow")
    st = dict(digests=set(), transitions=0, words=0, groupings=0, empty_updates=0, restarted_models=0)
    fails = []
    bits = {px.freeze(p0): p0}

    def feed(p, new, path):
        before = px.freeze(p)
        st["transitions"] += 1
        r = px.update(p, states.arr(new), **kw)
        if px.freeze(p) != before:
            fails.append(("state-modified", dict(path=path)))
        if r[0] != "ok":
            fails.append(("update-error", dict(path=path, result=r)))
        return r

    def repeat(p, new, path, want):
        r = px.update(p, states.arr(new), **kw)
        if r[0] != "ok" or px.freeze(r[1]) != px.freeze(want):
            fails.append(("not-repeatable", dict(path=path)))

    def empty(p, date, path):
        """updates without usable observations"""
        for toks in (("c",), ("s", "f"), ("o", "c", "f")) if not snow else (("c",), ("s", "f")):
            new = [states.feed_row(name, t, date + 3 * (i + 1)) for i, t in enumerate(toks)]
            r = feed(p, new, path + "/" + "".join(toks))
            st["empty_updates"] += 1
            if r[0] == "ok" and px.freeze(r[1]._replace(nrt_mode=mode_class(r[1].nrt_mode))) != px.freeze(p._replace(nrt_mode=mode_class(p.nrt_mode))):
                if p.nrt_mode != 5 or differences(r[1], p):
                    fails.append(("empty-update", dict(path=path, tokens=toks, mode=[p.nrt_mode, r[1].nrt_mode])))

    def go(S, rows, dates, path, n):
        """S[i]: {content: state} after i observations of the word under all groupings"""
        if n == 0 or len(fails) > 10:
            return
        for t in (alpha if len(path) >= len(prefix) else (prefix[len(path)],)):
            d = dates[-1] + (0 if t[0] == "=" else gaps[len(path) % len(gaps)])
            new = rows + [states.feed_row(name, t.lstrip("="), d)]
            word = path + [t]
            st["words"] += 1
            st["groupings"] += 2 ** len(path)
            T, ref, began = {}, None, False
            for j in reversed(range(len(S))):           # last update holds the observations after the j-th
                for p in S[j].values():
                    r = feed(p, new[j:], "".join(word) + " last %d" % (len(new) - j))
                    if r[0] != "ok":
                        continue
                    began |= reinit_possible(p, r[1])
                    T[px.freeze(r[1])] = r[1]
                    if ref is None:
                        ref = r[1]
                        repeat(p, new[j:], "".join(word), r[1])
                    elif not began or all(x in "Acs" for x in word):
                        for k in differences(r[1], ref):
                            if name in FIRST and k[0] in LATER:
                                continue
                            fails.append((k[0], dict(path="".join(word), last_update=len(new) - j,
                                                     mode=[p.nrt_mode, r[1].nrt_mode, ref.nrt_mode], detail=k[1:])))
            st["digests"].update(px.digest(x) for x in T.values())
            if empties and ref is not None:
                empty(ref, d, "".join(word))
            if began and not all(x in "Acs" for x in word):
                st["restarted_models"] += 1
                continue
            go(S + [T], new, dates + [d], word, n - 1)
    go([bits], [], [date], [], depth)
    return fails, st


def long_runs(case):
    """equal batches of every size over a long stable stream, and the end of a long queue"""
    name, conse, word = case
    rows = states.initial(name)
    p0 = px.sccd(states.arr(rows), conse=conse)[1]
    new = [states.feed_row(name, t, rows[-1][0] + 16 * (i + 1)) for i, t in enumerate(word)]
    st = dict(digests=set(), transitions=0, restarted_models=0)
    fails, ref = [], None
    for size in (1, 2, 3, 5, 8, 13, 30, 60, len(new)):
        p = p0
        for i in range(0, len(new), size):
            r = px.update(p, states.arr(new[i:i + size]), conse=conse)
            st["transitions"] += 1
            if r[0] != "ok":
                return [("update-error", dict(size=size, at=i, result=r))], st
            p = r[1]
        st["digests"].add(px.digest(p))
        if ref is None:
            ref = p
            if len(p.rec_cg) > len(p0.rec_cg):      # a new model was started
                st["restarted_models"] += 1
                break
        else:
            fails += [(k[0], dict(size=size, mode=[p.nrt_mode, ref.nrt_mode], detail=k[1:])) for k in differences(p, ref)]
    return fails, st


def run(ctx):
    q = ctx.quick

    def go(part, cs):
        run_cases(ctx, part, subtree, cs, case_timeout=600,
                  describe=lambda c: dict(zip(("history", "conse", "c2", "gaps", "prefix", "alphabet", "depth", "start", "empties"), c)))
    # persistent snow and pixels without observations take their scale from the observations first at hand
    names = [n for n in states.INIT if not n.startswith("snow") and n != "void"]
    A = ("A", "B", "x", "c", "=B")
    go("mixed", [(n, c, c2, (16,), (a,), A, 4 if q else 6, "", True) for n in names for c in ((1, 3, 8) if q else range(1, 9))
                 for c2 in (False, True) if not (q and c2 and c != 3) for a in A])
    go("runs", [(n, c, False, g, (a, b), ("A", "B"), min(c + 3, 7 if n in ("monitor", "dense", "run2", "two", "queue18") else 6) if q else min(c + 5, 11), "", False)
                for n in names for c in range(1, 9) for g in (((16,),) if q else ((16,), (8, 3, 40))) for a in "AB" for b in "AB"])
    go("gaps", [(n, c, False, (5, 90, 1), (a,), ("A", "B", "C"), 4 if q else 6, "", True) for n in names for c in (2, 5) for a in "ABC"])
    go("reported", [(n, c, False, (16,), (a,), ("A", "B", "!")[:2], 5 if q else 8, "B" * k + "!", True)
                    for n in ("monitor", "season", "dense", "two", "run1") for c in (2, 4, 8) for k in (1, 2, 5) for a in "AB"])
    go("snow", [(n, c, False, (16,), (a,), ("n", "A", "c", "B"), 4 if q else 7, "", True) for n in ("snowfull",) for c in (1, 4, 8)
                for a in ("n", "A", "c", "B")])
    go("first", [(n, c, c2, (16,), (a,), ("n", "c", "A", "=n") if n != "void" else ("A", "B", "c", "=A"), 5 if q else 7, "", True)
                 for n in FIRST for c in (1, 4, 8) for c2 in (False, True) for a in (("n", "c", "A") if n != "void" else ("A", "B", "c"))])
    words = ["A" * 120, "AAc" * 40, "AcAsA" * 20]
    run_cases(ctx, "long", long_runs, [(n, c, w) for n in names if n != "broken" for c in ((1, 4, 8) if q else range(1, 9)) for w in words], case_timeout=300,
              describe=lambda c: dict(zip(("history", "conse", "word"), c)))
    ctx.coverage["exhaustive"] = True
