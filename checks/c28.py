"""C28: the pinpoint records of S-CCD against an independent model of the monitoring steps."""
import itertools

import numpy as np

from vlib import px, series, smodel, states
from vlib.harness import run_cases

LEVEL = "model_checking"
TECHNIQUE = """exhaustive enumeration of tails of following, slightly and strongly deviating, opposite, noisy and cloudy observations after a
stable start; each is run with and without pinpointing through the real code, and the complete list of pinpoint records is compared with
the one an independent model of the monitoring steps predicts (strongest window of each year)"""
NOTE = """Exhaustive within the reported starts, confirmation lengths, thresholds, steps and tail lengths.  Tails where a decision of the model
lies within 1e-3 of a threshold, and the part of a tail after a new model is started, are counted and not compared."""
RULE = """The S-CCD result is the same bit for bit with and without pinpointing.  A record exists for each year (365.25 days from 1982-01-01)
with a window of conse observations whose first three deviate by the gate threshold; it describes the window of that year whose weakest
deviation is the largest: date of its first observation, the observations and their dates, the coefficients, and for each length the
weakest deviation and the mean angle.  Distinct = different lists of records."""
Y0 = 723546
BASE = 40
LAUNCH = smodel.LAUNCH


def value(tok, date, tex, scale):
    """observation for the token; scale: the noise level per band"""
    amp, noi = {"quiet": (1.0, 0.3), "flat": (0.3, 0.3), "plain": (1.0, 1.0)}[tex]
    v = np.array(series.values(date, "A" if tok in "muvlzyc" else tok, amp, noi), float)
    # weak deviations: multiples of the noise level in the five bands that count, in one direction or in the opposite one
    step = {"m": 1.75, "u": -1.75, "v": 2.1, "l": 1.55, "z": 6.0, "y": -6.0}.get(tok)
    if step:
        v[1:6] += step * scale[1:6] * np.array([1, 1, -1, 1, 1])
    return (date,) + tuple(int(round(x)) for x in v) + (4 if tok == "c" else 0,)


def advance(x, R, conse):
    """the state record after the model's step"""
    y = x.copy()
    y["nrt_coefs"] = R.cft
    P = R.P.copy()
    iu = np.triu_indices(6, 1)
    P[:, iu[0], iu[1]] = R.P[:, iu[0], iu[1]]
    y["covariance"] = P.reshape(6, 36)
    y["num_obs"], y["rmse_sum"] = R.n, R.ssum
    y["obs_date_since1982"][:conse] = np.asarray(R.dates) - LAUNCH
    y["obs"][:, :conse] = R.obs
    return y


def expected(x, min_rmse, conse, obs, t_cg, gate):
    """-> (records by year, number of steps, smallest margin, date from which nothing is predicted)"""
    years, near = {}, 9.0
    for o in obs:
        D = (x["obs_date_since1982"][:conse].astype(int) + LAUNCH).tolist()
        Y = x["obs"][:, :conse].astype(float)
        cft = x["nrt_coefs"].astype(float)
        sc = np.maximum(np.asarray(min_rmse, float), np.sqrt(x["rmse_sum"].astype(float) / float(int(x["num_obs"]) - 6)))
        V = np.array([(Y[1:, k] - smodel.predict(cft, D[k])[1:]) / sc[1:] for k in range(conse)])
        N = (V ** 2).sum(1)
        hit = conse >= 3
        for k in range(min(3, conse)):
            near = min(near, abs(N[k] - gate) / gate)
            if N[k] < gate:
                hit = False
                break
        if hit:
            yr = int((D[0] - Y0) / 365.25)
            w = N.min()
            if yr in years:
                near = min(near, abs(w - years[yr]["w"]) / w if abs(w - years[yr]["w"]) > 0 else 9.0)
            if yr not in years or w > years[yr]["w"]:
                years[yr] = dict(w=w, replaced=yr in years, t_break=D[0], dates=D, obs=Y, coefs=cft,
                                 norm=[min(32767, N[:k].min() * 100) for k in range(1, conse + 1)],
                                 angle=[min(32767, smodel.angle(V[:k]) * 100) for k in range(1, conse + 1)])
        R = smodel.step(x, min_rmse, 1, conse, o, t_cg=t_cg, gate=gate)
        # (the reported mode and counter do not matter here, so only the decisions about the window count)
        near = min(near, decisions(N, V, t_cg))
        if R.kind == "break":
            return years, near, True
        x = advance(x, R, conse)
    return years, near, False


def decisions(N, V, t_cg):
    m = abs(N[0] - smodel.T_MAX) / smodel.T_MAX
    for v in N:
        m = min(m, abs(v - t_cg) / t_cg)
        if v < t_cg:
            return m
    return min(m, abs(smodel.angle(V) - 45) / 45)


def one(case):
    conse, tex, c2, start, step, prefix, depth, alpha, par = case
    t_cg, gate = par.get("t_cg", 15.0863), par.get("gate_tcg", 9.236)
    kw = dict(conse=conse, b_c2=c2, **par)
    base = [value("A", 724500 + start + 16 * k, tex, np.zeros(7)) for k in range(BASE)]
    p0 = px.sccd(states.arr(base), **kw)
    if p0[0] != "ok" or p0[1].nrt_mode != 1:
        return [("start", p0[0])], None
    m0 = p0[1].nrt_model[0]
    scale = np.zeros(7)
    scale[:6] = np.maximum(np.asarray(p0[1].min_rmse, float), np.sqrt(m0["rmse_sum"].astype(float) / (int(m0["num_obs"]) - 6)))
    st = dict(digests=set(), tails=0, records=0, near_ties=0, two_years=0, replaced=0)
    fails = []
    for tail in itertools.product(alpha, repeat=depth - len(prefix)):
        tail = prefix + tail
        rows = base + [value(t, base[-1][0] + step * (i + 1), tex, scale) for i, t in enumerate(tail)]
        a = states.arr(rows)
        plain, pin = px.sccd(a, **kw), px.sccd(a, b_pinpoint=True, **kw)
        st["tails"] += 1

        def bad(kind, *d):
            fails.append((kind, dict(tail="".join(tail), detail=[str(x)[:200] for x in d])))
        if pin[0] != "ok" or plain[0] != "ok":
            bad("error", plain[0], pin)
            continue
        if px.freeze(plain[1]) != px.freeze(pin[1][0]):
            bad("detection-disturbed", [int(x) for x in plain[1].rec_cg["t_break"]] if len(plain[1].rec_cg) else [])
        if pin[1][1].position != 1:
            bad("position", pin[1][1].position)
        got = pin[1][1].rec_cg_pinpoint
        st["digests"].add(px.digest(got))
        st["records"] += len(got)
        use = states.usable(rows[BASE:], c2, False)
        years, near, stop = expected(m0.copy(), pin[1][0].min_rmse, conse, use, t_cg, gate)
        st["two_years"] += len(years) > 1
        st["replaced"] += any(y["replaced"] for y in years.values())
        if near < 1e-3:
            st["near_ties"] += 1
            continue
        want = [years[k] for k in sorted(years)]
        if [int(g["t_break"]) for g in got] != [w["t_break"] for w in want]:
            bad("dates", [int(g["t_break"]) for g in got], [w["t_break"] for w in want])
            continue
        for g, w in zip(got, want):
            d = (g["obs_date_since1982"].astype(int)).tolist()
            if d != [x - LAUNCH for x in w["dates"]] + [0] * (8 - conse):
                bad("window-dates", d, w["dates"])
            if (g["obs"][:, :conse] != w["obs"]).any() or g["obs"][:, conse:].any():
                bad("window-values", g["obs"].tolist())
            for day in (w["t_break"], w["t_break"] + 91, w["t_break"] + 183):
                if (np.abs(smodel.predict(g["coefs"].astype(float), day) - smodel.predict(w["coefs"], day)) > 0.3).any():
                    bad("coefs", day)
                    break
            for k in range(8):
                n, an = int(g["norm_cm"][k]), int(g["cm_angle"][k])
                if k >= conse:
                    if n or an:
                        bad("unused-length", k, n, an)
                elif abs(n - w["norm"][k]) > 2 + 2e-3 * w["norm"][k]:
                    bad("norm_cm", k, n, w["norm"][k])
                elif abs(an - w["angle"][k]) > (60 if w["angle"][k] < 600 else 6 + 2e-3 * w["angle"][k]):
                    bad("cm_angle", k, an, w["angle"][k])
        if len(fails) > 10:
            break
    return fails, st


def shapes(case):
    """results without a model (void, snow, few observations): same pair, no records"""
    name, conse, c2 = case
    a = states.arr(states.initial(name))
    plain, pin = px.sccd(a, conse=conse, b_c2=c2), px.sccd(a, conse=conse, b_c2=c2, b_pinpoint=True)
    st = dict(digests={px.digest(pin)}, histories=1)
    f = []
    if plain[0] != pin[0]:
        return [("outcome", (plain[0], pin))], st
    if plain[0] != "ok":
        return f, st
    if len(pin[1]) != 2 or px.freeze(plain[1]) != px.freeze(pin[1][0]):
        f.append(("detection-disturbed", name))
    elif not hasattr(pin[1][1], "rec_cg_pinpoint"):
        f.append(("not-a-pinpoint-result", type(pin[1][1]).__name__))
    else:
        r = pin[1][1].rec_cg_pinpoint
        t = [int(x["t_break"]) for x in r]
        if pin[1][1].position != 1:
            f.append(("position", pin[1][1].position))
        if t != sorted(set(t)) or len({int((x - Y0) / 365.25) for x in t}) != len(t):
            f.append(("not-one-per-year", t))
        dates = {int(x) for x, qa in zip(a[0], a[8])}
        for x in r:
            d = [int(v) + LAUNCH for v in x["obs_date_since1982"][:conse]]
            if d != sorted(set(d)) or d[0] != x["t_break"] or not set(d) <= dates:
                f.append(("window", d))
            n = x["norm_cm"][:conse].tolist()
            if any(b > c for b, c in zip(n[1:], n)) or n[2] < 923:
                f.append(("norms", n))
        for b in plain[1].rec_cg:       # a confirmed break is also a pinpoint candidate of its year
            if conse >= 3 and not any(int((int(b["t_break"]) - Y0) / 365.25) == int((x - Y0) / 365.25) for x in t):
                f.append(("break-without-pinpoint", int(b["t_break"])))
    return f, st


def run(ctx):
    q = ctx.quick
    D = dict
    names = ("conse", "texture", "c2", "start", "step", "prefix", "depth", "alphabet", "parameters")
    cs = []
    for conse in range(1, 9):
        d = min(conse + 3, 5) if q else min(conse + 5, 9)
        for a in "AmBc":
            for b in "AmBc":
                cs.append((conse, "quiet", False, 200, 16, (a, b), d, "AmBc", D()))
        for a in "AvuzC":
            for b in "AvuzC":
                cs.append((conse, "plain", conse % 2 == 0, 150, 40, (a, b), (5 if q and conse in (3, 4, 6) else 4 if q else 7), "AvuzC", D()))
        # long runs, so that windows of every length are filled
        for pre in ("lll", "BAl", "mml", "All"):
            cs.append((conse, "flat", False, 5000, 60, tuple(pre), 10 if q else 13, "Al", D()))
            cs.append((conse, "quiet", True, 200, 16, tuple(pre), 10 if q else 13, "vl", D()))
        # strong single and short deviations, which are left out of the model, over two to four years
        for pre in ("zyz", "Azz", "zzz"):
            cs.append((conse, "quiet", False, 130, 90, tuple(pre), 8 if q else 10, "Azy", D()))
            cs.append((conse, "flat", True, 0, 60, tuple(pre), 10 if q else 13, "Az", D()))
    for t_cg, gate in ((9.236, 5.0), (20.515, 9.236), (40.0, 15.0863), (15.0863, 15.0863), (15.0863, 4.0)):
        for conse in ((3, 5) if q else range(3, 9)):
            for a in "Amvz":
                cs.append((conse, "quiet", False, 0, 30, (a,), 5 if q else 8, "Amvz", D(t_cg=t_cg, gate_tcg=gate)))
    run_cases(ctx, "tails", one, cs, case_timeout=600, describe=lambda c: dict(zip(names, c)))
    run_cases(ctx, "histories", shapes, [(n, c, c2) for n in states.INIT for c in range(1, 9) for c2 in (False, True)], case_timeout=300,
              describe=lambda c: dict(zip(("history", "conse", "c2"), c)))
    ctx.coverage["exhaustive"] = True
