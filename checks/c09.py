"""C09: COLD against the reference model of the algorithm, in lock step over bounded histories."""
import itertools

import numpy as np

from vlib import cmodel, px
from vlib.harness import run_cases
from vlib.series import TEXTURES, textured

LEVEL = "model_checking"
TECHNIQUE = """exhaustive lock-step exploration: every bounded history is executed on an independently written executable
model of COLD (C++, model/cold_model.cpp) and on the real cold_detect, and all records are compared"""
NOTE = """Exhaustive over the stated words (phases and single observations) x textures x parameters.  The numeric fields are
compared with tolerances that cover float rounding and the stopping tolerance of the lasso descent; histories in which a
decision of the model lies within rounding of its threshold are counted (near_ties) and their integer fields not compared."""
RULE = """Case = a history (word) x texture x conse x collection x threshold x gap; model and implementation must return
the same number of records with equal t_start, t_end, t_break, num_obs, category, probability and equal coefficients (as
predicted values and harmonics), rmse and magnitudes.  Non-trivial when records were returned; distinct by records."""

PHASES = {
    "a": "A" * 20, "b": "B" * 20, "g": "G" * 14, "k": "A" * 7, "l": "B" * 5, "c": "c" * 8, "n": "n" * 9, "x": "x",
    "X": "AxAAxxA", "-": "-" * 14, "z": "ABABABAB", "d": "A=A=AB=BA", "o": "oAoo", "r": "AAAACCCC",
}
EPS = 2e-4


def expand(form, word):
    if form == "tail":
        return "A" * 46 + word
    if form == "short":                 # a change while the model is still short
        return "A" * 26 + word
    if form == "long":                  # a change after the model reached its full number of coefficients
        return "A" * 75 + word
    return "".join(PHASES[t] for t in word)


def one(case):
    form, word, tex, conse, c2, tcg, gap = case
    a = textured(expand(form, word), 724500, tex).arrays()
    if len(a[0]) < 1:
        return [], None
    r = px.cold(a, conse=conse, b_c2=c2, t_cg=tcg, gap_days=gap)
    want, st, _ = cmodel.cold(a, conse, tcg, c2, gap)
    near = bool(st["margin"] < EPS)
    if want is None:                    # the model ran out of records
        return ([] if r[0] == "error" else [("capacity", px.cold_summary(r))]), None
    if r[0] == "none":
        if len(want) and not near:
            return [("missing", [tuple(int(x) for x in tuple(w)[:6]) for w in want])], None
        return [], ("near" if near else None)
    if r[0] != "ok":
        return [("error", r)], None
    if near:
        return [], "near"
    d = cmodel.compare(r[1], want)
    if d:
        return [("model:" + str(d[0][1] if d[0][0] != "records" else "records"),
                 dict(differences=d[:4], got=px.cold_summary(r), model=[tuple(int(x) for x in tuple(w)[:6]) for w in want]))], None
    return [], px.digest(r[1])


def words(alpha, n):
    for w in itertools.product(alpha, repeat=n):
        w = "".join(w)
        if not w.endswith("=") and "==" not in w:
            yield w


def run(ctx):
    q = ctx.quick
    def go(part, cases):
        run_cases(ctx, part, one, cases, describe=desc)
    ph = sorted(PHASES)
    D = (6, False, 15.0863, 365.25)
    L = 4 if q else 5
    go("phases", [("phases", w, "plain") + D for n in range(1, L + 1) for w in words(ph, n)])
    L = 3 if q else 4
    go("phases-textures", [("phases", w, t, c, c2, tcg, gap) for w in words(ph, L) for t in TEXTURES
                           for c, c2, tcg, gap in ((3, True, 15.0863, 365.25), (8, False, 9.236, 200.0), (4, False, 30.0, 100.0))])
    L = 2 if q else 3
    go("phases-parameters", [("phases", w, t, c, c2, tcg, gap) for w in words(ph, L) for t in ("plain", "dense")
                             for c in range(1, 12) for c2 in (False, True) for tcg in (1.0, 9.236, 15.0863, 60.0)
                             for gap in (0.0, 60.0, 365.25)])
    L = 5 if q else 7
    go("tail", [("tail", w, "plain", c, False, 15.0863, 365.25) for c in ((4,) if q else (3, 5)) for w in words("ABGxc-=", L)])
    L = 8 if q else 11
    go("tail-two", [(f, w, t, c, False, 15.0863, 365.25) for f in ("short", "long") for t in ("plain", "level", "dense")
                    for c in ((3, 6) if q else (2, 4, 6, 8)) for w in words("AB", L)])
    ctx.coverage["exhaustive"] = True


def desc(c):
    return dict(form=c[0], word=c[1], texture=c[2], conse=c[3], c2=c[4], tcg=c[5], gap=c[6])
