"""C27: pixels with few clear observations against the reference model of the fallback record."""
import itertools

import numpy as np

from vlib import cmodel, px, spec
from vlib.harness import run_cases
from vlib.series import Series, token_row, values

LEVEL = "model_checking"
TECHNIQUE = """exhaustive lock-step exploration: every periodic and every single-substitution mixture of clear, snow (with saturated,
negative or missing bands), cloud, fill, out-of-range and repeated observations is executed on the executable reference model
of the fallback and on the real cold_detect and obcold_reconstruct"""
NOTE = """Exhaustive over the stated mixtures and lengths.  The thermal values of persistent snow with fewer than five valid ones are
not specified and not compared."""
RULE = """Case = mixture x collection x function.  The outcome must be the model's: no record, or one record of the right kind over the
range of the observations used, with equal coefficients and errors and zero break, probability and magnitude.  Non-trivial when
a record is returned; distinct by it."""

TOK = {
    "N": lambda d: (d, 20000, 12000, 10500, 9000, 900, 600, 2650, 3),         # saturated snow
    "m": lambda d: (d, 7000, 7100, 6900, 6100, -5, 0, 2700, 3),               # negative short-wave infrared
    "t": lambda d: (d, 6500, 6600, 6400, 5800, 800, 500, 0, 3),               # snow without thermal value
    "V": lambda d: (d,) + tuple(v + 300 * (d // 16 % 5) for v in (6000, 6100, 6000, 5500, 850, 560, 2640)) + (3,),
    "h": lambda d: (d,) + tuple(values(d, "B", 1.0, 4.0)) + (4,),             # dark cloud: passes the brightness screening
    "w": lambda d: (d,) + tuple(values(d, "A")) + (1,),
}


# snow and cloud observations with one band at, just inside and just outside the limits of the valid range
LIMITS = {}
for _b in range(7):
    for _v in ((-1, 0, 1, 9999, 10000, 10001) if _b < 6 else (1798, 1799, 1800, 3439, 3440, 3441, 0, 65535)):
        for _qa in (3, 4, 0):
            _c = chr(0x100 + len(LIMITS))
            LIMITS[_c] = (_b, _v, _qa)


def limited(c, d):
    b, v, qa = LIMITS[c]
    r = list(TOK["V"](d) if qa == 3 else TOK["h"](d))
    r[1 + b], r[8] = v, qa
    return tuple(r)


def build(word, step=16, start=724500):
    s = Series()
    d, dup = start - step, False
    for t in word:
        if t == "=":
            dup = True
            continue
        if not dup:
            d += step
        dup = False
        if t == "-":
            continue
        s.rows.append(tuple(int(x) for x in (TOK[t](d) if t in TOK else limited(t, d) if t in LIMITS else token_row(t, d))))
    return s.arrays()


def one(case):
    func, word, step, c2, breaks = case
    a = build(word, step)
    if len(a[0]) < 1:
        return [], None
    if spec.kind(a, c2) == "standard":
        return [], None
    if func == "cold":
        r = px.cold(a, conse=4, b_c2=c2)
        want, st, _ = cmodel.cold(a, 4, 15.0863, c2)
    else:
        r = px.obcold(a, np.array(breaks, np.int64), conse=4, b_c2=c2)
        want, st = cmodel.rebuild(a, breaks, 4, c2)
    if r[0] == "error":
        return [("error", r)], None
    got = r[1] if r[0] == "ok" else np.zeros(0, want.dtype)
    if len(got) > 1:
        return [("records", px.cold_summary(r))], None
    if st["margin"] < 2e-4:
        return [], "near"
    fails = []
    for x in got:
        if x["t_break"] or x["change_prob"] or np.abs(x["magnitude"]).sum() or int(x["category"]) not in (44, 54) or x["pos"] != 1:
            fails.append(("fields", px.cold_summary(r)))
    d = cmodel.compare(got, want)
    # bands the model leaves open
    d = [y for y in d if not (len(y) > 2 and y[1] in ("fit", "coefs") and np.isnan(want[0]["rmse"][y[2]]))]
    if d:
        fails.append(("model:%s" % (d[0][1] if d[0][0] != "records" else "records"),
                      dict(differences=d[:4], got=px.cold_summary(r), model=[tuple(int(v) for v in tuple(w)[:6]) for w in want])))
    return fails, (px.digest(got) if len(got) else None)


def run(ctx):
    q = ctx.quick

    def go(part, cases):
        run_cases(ctx, part, one, cases, describe=lambda c: dict(zip(("function", "word", "step", "c2", "breaks"), c)))

    def periodic(alpha, n, lens):
        for w in itertools.product(alpha, repeat=n):
            w = "".join(w)
            for m in lens:
                yield (w * (m // n + 1))[:m].rstrip("=")
    P = 3 if q else 4
    al = "Acnshfo=NmVtx"
    W = sorted(set(w for n in range(1, P + 1) for w in periodic(al, n, (11, 12, 13, 17, 24, 40) if q else
                                                                (10, 11, 12, 13, 14, 17, 20, 24, 30, 40, 60)) if w and "==" not in w and w[0] != "="))
    go("periodic", [("cold", w, 16, c2, ()) for w in W for c2 in (False, True)])
    go("periodic-rebuild", [("obcold", w, 16, c2, (724700, 0)) for w in W[::3 if q else 1] for c2 in (False, True)])
    # numbers of clear, snow and cloud observations around every threshold, in two orders
    R = range(0, 27, 1)
    go("shares", [("cold", o(a, n, c), 24, False, ()) for a in range(0, 24) for n in R for c in (0, 3, 11, 14)
                  for o in (lambda a, n, c: "A" * a + "n" * n + "h" * c, lambda a, n, c: mix(a, n, c))] +
       [("cold", mix(a, n, 0), 24, True, ()) for a in range(0, 24) for n in range(0, 80)])
    # every single and double substitution in a few histories
    bases = ("AhhhA" * 5, "nnnA" * 6, "Vnnm" * 5, "hhhhhhhhhhhhh", "hhhhhhhhhhhh", "N" * 6 + "V" * 14, "c" * 9 + "h" * 13)
    sub = "-=AcnsfohNmtVx"
    cases = []
    for b in bases:
        for p, t in itertools.product(range(len(b)), sub):
            cases.append(b[:p] + t + b[p + 1:])
            for r, u in itertools.product(range(p + 1, len(b)), sub if not q else "-=hNfn"):
                if (p + r) % (4 if q else 1) == 0:
                    cases.append(b[:p] + t + b[p + 1:r] + u + b[r + 1:])
    cases = sorted(set(w for w in cases if "==" not in w and w[0] != "=" and w[-1] != "="))
    go("substitutions", [("cold", w, s, c2, ()) for w in cases for s, c2 in ((16, False), (31, True))])
    # limits: each band and value, alone and repeated, in persistent snow, in snow with little else and among dark clouds
    cases = []
    for c in LIMITS:
        for b in ("V" * 20, "V" * 40, "VVVh" * 6, "h" * 16, "Vnnm" * 6, "hhA" * 6):
            for every in ((3, 4, 20) if q else (1, 2, 3, 4, 5, 20)):
                cases.append("".join(c if k % every == every // 2 else t for k, t in enumerate(b)))
    cases = sorted(set(cases))
    names = lambda w: " ".join("%d=%d/%d" % LIMITS[t] if t in LIMITS else t for t in w)
    run_cases(ctx, "limits", one, [("cold", w, 16, c2, ()) for w in cases for c2 in (False, True)] +
              [("obcold", w, 16, c2, (724700, 0)) for w in cases for c2 in (False, True)],
              describe=lambda c: dict(zip(("function", "word", "step", "c2", "breaks"), (c[0], names(c[1])) + c[2:])))
    ctx.coverage["exhaustive"] = True


def mix(a, n, c):
    """the three kinds spread evenly"""
    tot = a + n + c
    out, left = [], [a, n, c]
    for i in range(tot):
        k = max(range(3), key=lambda j: left[j] / max((a, n, c)[j], 1))
        left[k] -= 1
        out.append("Anh"[k])
    return "".join(out)
