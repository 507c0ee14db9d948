"""C05: every combination of parameter values, series shapes and states is accepted exactly when it is valid."""
import itertools

import numpy as np

from vlib import px
from vlib.harness import run_cases
from vlib.series import from_tokens

LEVEL = "model_checking"
TECHNIQUE = """exhaustive enumeration of the argument space: all pairs of (parameter, value) around every documented bound and type,
all inconsistent shapes of each series, all window placements and all state modes, executed on the real functions against
an independent table of what is valid"""
NOTE = """Exhaustive over the stated values, singly and in pairs of parameters.  Infinities, booleans as numbers and lists instead of
arrays are left open by the documentation and not judged."""
RULE = """Case = function x assignment of values to one or two parameters, or a deformed set of series, or a state with a mode.
Expected outcome (accepted: a result or 'no change records'; rejected: an exception, with the arguments untouched) follows
from the documented table.  Non-trivial always; distinct by the case's expected and observed outcome and parameter."""

POSREAL = ([1e-6, 0.5, 15.0863, 3, np.float32(9.236), np.float64(200.0), np.int64(7)], [0, 0.0, -1e-6, -3, "9", None, [9.2], float("nan")])
BOOL = ([True, False, np.True_], ["yes", None, "True", 0.5, []])
P = {
    "t_cg": POSREAL, "gate_tcg": POSREAL, "predictability_tcg": POSREAL,
    "pos": ([1, 2, 25000000, np.int64(5), np.int32(7)], [0, -1, 1.0, 2.5, "1", None, [1], float("nan")]),
    "starting_date": ([0, 720000, np.int64(700000)], [-1, -700000, 700000.0, 0.0, "700000", None, [700000]]),
    "n_cm": ([0, 1000, np.int64(999)], [-1, 100.0, 0.0, "9", None, []]),
    "conse": (list(range(1, 12)) + [np.int64(6), np.int16(4)], [0, 12, 13, 100, -1, 6.0, 0.5, "6", None, [6]]),
    "b_output_cm": BOOL, "b_pinpoint": BOOL, "transform_mode": BOOL,
    "gap_days": ([0, 0.0, 1, 365.25, 1500, np.float64(10.0)], [-1e-6, -1, "365", None, [365], float("nan")]),
    "dist_conse": ([1, 2, 3, 4, 5, 6, np.int64(3)], [0, 7, 8, -1, 3.0, "3", None, [3]]),
    "t_cg_scale100": ([1e-6, 1508.6, 10, np.float32(900)], [0, 0.0, -1, "x", None, [1], float("nan")]),
    "t_cg_singleband_scale1000": ([-200, 0, 200, -0.5, np.float64(3.3)], ["x", None, [1], float("nan")]),
    "t_angle_scale100": ([1, 4500, 17999, np.int64(9000)], [0, 18000, -1, 4500.0, "x", None, [1]]),
}
F = {
    "cold": ["t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "gap_days"],
    "obcold": ["pos", "conse"],
    "sccd": ["t_cg", "pos", "conse", "b_pinpoint", "gate_tcg"],
    "update": ["t_cg", "pos", "conse", "gate_tcg", "predictability_tcg"],
    "identify": ["dist_conse", "t_cg_scale100", "t_cg_singleband_scale1000", "t_angle_scale100", "transform_mode"],
}
SER = {"break": "A" * 44 + "B" * 14, "short": "A" * 30}
BREAKS = np.array([725200], np.int64)


def series(name="break"):
    return from_tokens(SER[name], 724500, 16).arrays()


_pack = {}


def pack(kind="break", conse=4):
    if (kind, conse) not in _pack:
        toks = {"break": "A" * 44 + "B" * 14, "monitor": "A" * 50 + "B" * 3, "queue": "A" * 44 + "B" * 10, "snow": "nnnA" * 12,
                "snowq": "nA" * 6 + "n" * 11, "void": "c" * 40, "early": "A" * 26}[kind]
        _pack[kind, conse] = px.sccd(from_tokens(toks, 724500, 16).arrays(), conse=conse)[1]
    return _pack[kind, conse]


def later(p, n=3):
    return from_tokens("A" * n, 724500 + 16 * 70, 16).arrays()


def call(func, kw, a=None, br=None, p=None):
    import pycold
    if func == "cold":
        return px.cold(a or series(), **kw)
    if func == "obcold":
        return px.obcold(a or series(), BREAKS if br is None else br, **kw)
    if func == "sccd":
        return px.sccd(a or series(), **kw)
    if func == "update":
        return px.update(p or pack(), a or later(p), **kw)
    if func == "identify":
        return px.call(pycold.sccd_identify, p or pack("monitor"), **kw)
    raise KeyError(func)


def judge(what, valid, r):
    ok = r[0] in ("ok", "none")
    if ok != valid:
        return [(("accepted:" if ok else "rejected:") + what, dict(expected="accepted" if valid else "rejected", got=r[:3]))]
    return []


def params(case):
    func, kv = case
    kw = dict((k, P[k][0 if good else 1][i]) for k, good, i in kv)
    valid = all(good for _, good, _ in kv)
    if func in ("sccd", "update") and isinstance(kw.get("conse"), (int, np.integer)) and kw["conse"] > 8:
        valid = False
    if valid and kw.get("b_output_cm") is None and ("n_cm" in kw or "starting_date" in kw):
        pass                                    # without change magnitudes the window is not used
    if valid and kw.get("b_output_cm") in (True, np.True_):
        valid = kw.get("starting_date", 0) <= 724500
        n, s = int(kw.get("n_cm", 0)), int(kw.get("starting_date", 0)) or 724500
        if n:
            valid = valid and (724500 + 57 * 16 - s) // 60 < n
    c = kw.get("conse", 6)
    c = int(c) if isinstance(c, (int, np.integer)) and 1 <= c <= 8 else 6
    a, p = (later(None), pack("monitor", c)) if func in ("update", "identify") else (series(), None)
    if func == "identify":
        a = None
    z = px.freeze((a, p))
    r = call(func, kw, a, None, p)
    f = judge("%s %s" % (func, "+".join(k for k, _, _ in kv)), valid, r)
    if px.freeze((a, p)) != z:
        f.append(("modified:" + func, kw))
    return f, px.digest((func, [k for k, _, _ in kv], valid, r[0]))


def window(case):
    """change-magnitude windows: valid exactly when all dates fall into the n_cm intervals"""
    off, n, iv = case
    a = series("short")
    first, last = int(a[0][0]), int(a[0][-1])
    start = first + off
    iv0 = iv or 60
    valid = iv0 > 0 and start <= first and (n == 0 or (last - start) // iv0 < n)
    r = px.cold(a, b_output_cm=True, starting_date=start, n_cm=n, cm_output_interval=iv)
    f = judge("window", valid, r)
    if r[0] == "ok" and valid:
        want = n or -(-(last - start + 1) // iv0) + 1
        if len(r[1][1]) != want or len(r[1][2]) != want:
            f.append(("window-length", (len(r[1][1]), want)))
    r2 = px.cold(a, b_output_cm=False, starting_date=max(start, 0), n_cm=n, cm_output_interval=iv)
    f += judge("window-unused", True, r2)
    return f, px.digest((valid, r[0], off, n, iv))


def deform(case):
    func, i, how = case
    a = later(None, 12) if func == "update" else series()
    br = BREAKS
    valid = False
    x = a[i] if i < 9 else br
    if how == "longer":
        x = np.append(x, x[-1])
    elif how == "shorter":
        x = x[:-1]
    elif how == "empty":
        x = x[:0]
    elif how == "one":
        x = x[:1]
    elif how == "2d":
        x = x[:, None]
    elif how == "2d-row":
        x = x[None, :]
    elif how == "2d-wide":
        x = np.stack([x, x], axis=1)
    elif how == "3d":
        x = x[:, None, None]
    elif how == "0d":
        x = np.array(x[0])
    elif how == "none":
        x = None
    elif how == "text":
        x = np.array(["abc"] * len(x))
    elif how == "objects":
        x = np.array([object()] * len(x))
    elif how == "int":
        x = 7
    elif how == "uint16":
        valid = x.max() < 65536 and x.min() >= 0
        x = x.astype(np.uint16) if valid else None
    elif how == "int32":
        valid, x = True, x.astype(np.int32)
    elif how == "same":
        valid, x = True, x.copy()
    if i < 9:
        a[i] = x
    else:
        br = x
    r = call(func, {"conse": 4}, a, br)
    return judge("%s %s %s" % (func, "series" if i < 8 else ("qa", "breaks")[i - 8], how), valid, r), px.digest((case, r[0]))


def content(case):
    """unsorted dates and unknown quality values, at every place"""
    func, kind, p, v = case
    a = later(None, 12) if func == "update" else series()
    if kind == "qa":
        a[8][p] = v
        valid = v in (0, 1, 2, 3, 4, 255)
    elif kind == "swap":
        a[0][p], a[0][p + 1] = a[0][p + 1], a[0][p]
        valid = False
    else:                                   # equal neighbouring dates are allowed
        a[0][p] = a[0][p + 1]
        valid = True
    return judge("%s %s" % (func, kind), valid, call(func, {"conse": 4}, a)), px.digest(case)


def span(case):
    func, days = case
    n = 40
    a = series()
    a = [x[:n].copy() for x in a]
    a[0][:] = 724500 + np.linspace(0, days, n).astype(int)
    r = call(func, {"conse": 4}, a)
    return judge("%s span" % func, func != "sccd" or days >= 365.25, r), px.digest((func, days >= 366, r[0]))


def modes(case):
    kind, mode, tamper = case
    p = pack(kind)
    valid = mode in (0, 1, 2, 3, 4, 5, 11, 12)
    content = {"monitor": (1, 11, 0), "queue": (0,), "snow": (3, 0), "void": (0,), "early": (2, 12, 0), "break": (5, 0)}[kind]
    if valid and (mode % 10 in (2, 5) or mode == 4) and len(p.nrt_queue) == 0 or valid and mode in (1, 3, 5, 11) \
            and len(p.nrt_model) == 0:
        valid = None                        # a known mode with the wrong content: must not crash; either outcome
    elif valid and mode not in content:
        valid = None
    q = p._replace(nrt_mode=mode)
    if tamper == "queue-too-long":
        import pycold.common as c
        q = q._replace(nrt_queue=np.zeros(241, c.nrtqueue_dt))
        valid = False
    elif tamper == "records-too-many":
        import pycold.common as c
        q = q._replace(rec_cg=np.zeros(41, c.sccd_dt))
        valid = False
    elif tamper == "rmse-short":
        pass
    elif tamper == "model-type":
        if not len(p.nrt_model) or mode not in (1, 3, 5, 11):
            return [], None
        q = q._replace(nrt_model=np.zeros(1, np.float64))
        valid = False
    z = px.freeze(q)
    r = px.update(q, later(None), conse=4)
    f = [] if valid is None else judge("state %s" % (tamper or "mode"), valid, r)
    if px.freeze(q) != z:
        f.append(("modified:state", dict(kind=kind, mode=mode)))
    return f, px.digest((kind, mode, tamper, r[0]))


def run(ctx):
    q = ctx.quick

    def vals(k, few=False):
        g, b = P[k]
        gi, bi = range(len(g)), range(len(b))
        if few:
            bi = list(bi)[:4]
            gi = list(gi)[:3] + ([10] if len(g) > 10 else [])
        return [(k, True, i) for i in gi] + [(k, False, i) for i in bi]

    def go(part, fn, cases):
        run_cases(ctx, part, fn, cases)
    go("single", params, [(f, (v,)) for f in F for k in F[f] for v in vals(k)])
    go("pairs", params, [(f, (v, w)) for f in F for k, m in itertools.combinations(F[f], 2) for v in vals(k) for w in vals(m)])
    if not q:
        go("triples", params, [(f, t) for f in F for ks in itertools.combinations(F[f], 3)
                               for t in itertools.product(*[vals(k, True) for k in ks])])
    go("window", window, [(o, n, iv) for iv in ([0, 1, 16, 32, 59, 60, 61, 500, -1, -60] if q else list(range(-3, 130)) + [500, 5000])
                          for o in (-61, -60, -59, -1, 0, 1, 15, 16, 464, 465)
                          for n in list(range(0, 36)) + [463, 464, 465, 466, 526, 527]])
    hows = ["longer", "shorter", "empty", "one", "2d", "2d-row", "2d-wide", "3d", "0d", "none", "text", "objects", "int", "uint16",
            "int32", "same"]
    go("shapes", deform, [(f, i, h) for f in ("cold", "obcold", "sccd", "update") for i in range(9) for h in hows]
       + [("obcold", 9, h) for h in ("2d", "2d-row", "3d", "0d", "text", "objects", "int", "int32", "same")])
    N = {"cold": 58, "obcold": 58, "sccd": 58, "update": 12}
    go("content", content, [(f, "qa", p, v) for f in N for p in range(N[f]) for v in (-1, 0, 1, 2, 3, 4, 5, 6, 9, 254, 255, 256, -128)]
       + [(f, k, p, 0) for f in N for k in ("swap", "equal") for p in range(N[f] - 1)])
    go("span", span, [(f, d) for f in ("cold", "sccd", "obcold") for d in range(340, 400)])
    go("states", modes, [(k, m, t) for k in ("monitor", "queue", "snow", "void", "early", "break") for m in range(-25, 60)
                         for t in ("", "queue-too-long", "records-too-many", "model-type")])
    ctx.coverage["exhaustive"] = True
