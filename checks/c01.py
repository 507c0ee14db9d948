"""C01: well-formedness of COLD's records over all histories of a bounded alphabet."""
import itertools

import numpy as np

from vlib import px, spec
from vlib.harness import run_cases
from vlib.series import from_tokens

LEVEL = "model_checking"
TECHNIQUE = """exhaustive enumeration of bounded pixel histories, executed on the real cold_detect, with a record
invariant checked on every result"""
NOTE = """Exhaustive over all words of the stated alphabets and lengths (single observations after a stable start; whole
history phases in every order); values of a token are fixed surface reflectances with a fixed deterministic
perturbation, so other reflectances are not covered."""
RULE = """Case = one history (a word of tokens) x conse x collection x threshold; the invariant of C01 is evaluated on
the returned records.  Non-trivial when records were returned; distinct by the full record list."""

# phases: whole stretches of a history
PHASES = {   # (also in c09)
    "a": "A" * 20, "b": "B" * 20, "g": "G" * 14, "k": "A" * 7, "l": "B" * 5, "c": "c" * 8, "n": "n" * 9, "x": "x",
    "X": "AxAAxxA", "-": "-" * 14, "z": "ABABABAB", "d": "A=A=AB=BA", "o": "oAoo", "r": "AAAACCCC",
}


def expand(word):
    return "".join(PHASES[t] for t in word)


def check(recs, arrays, pos, conse, c2):
    bad = []

    def need(ok, what):
        if not ok:
            bad.append(what)
    dates = spec.usable_dates(arrays, c2)
    ds = set(dates)
    kind = spec.kind(arrays, c2)
    need(len(recs) >= 1, "empty result")
    need(len(recs) <= 40, "too many records")
    need(recs.dtype.names == ("t_start", "t_end", "t_break", "pos", "num_obs", "category", "change_prob", "coefs", "rmse",
                              "magnitude"), "fields")
    if kind != "standard":
        need(len(recs) == 1, "several fallback records")
        need(int(recs[0]["category"]) == (54 if kind == "snow" else 44), "fallback category")
        ds = set(arrays[0].tolist())
    prev = None
    for i, r in enumerate(recs):
        ts, te, tb = int(r["t_start"]), int(r["t_end"]), int(r["t_break"])
        prob, cat, n = int(r["change_prob"]), int(r["category"]), int(r["num_obs"])
        last = i == len(recs) - 1
        need(int(r["pos"]) == pos, "position")
        need(ts in ds, "t_start is not the date of a usable observation")
        need(te in ds, "t_end is not the date of a usable observation")
        need(ts <= te, "t_start after t_end")
        if tb:
            need(tb in ds, "t_break is not the date of a usable observation")
            need(tb > te, "break not after the end of its segment")
        need(0 <= prob <= 100, "probability out of range")
        if not last:
            need(prob == 100, "record before the last one is unconfirmed")
        need((prob > 0) == (tb != 0), "probability and break date disagree")
        if 0 < prob < 100:
            need(prob in [k * 100 // conse for k in range(1, conse)], "probability is not a share of conse")
            tail = [d for d in dates if d >= tb]
            need(len(tail) >= round(prob * conse / 100.0), "fewer observations after the break than the probability says")
        if kind == "standard":
            need(cat in (4, 6, 8, 14, 24), "category")
            need(cat != 14 or i == 0, "extra first segment that is not the first")
            need(cat != 14 or prob == 100, "extra first segment without a break")
            need(cat != 24 or (last and prob == 0), "trailing segment that is not last and unbroken")
            inside = sum(ts <= d <= te for d in dates)
            need(n <= inside + (1 if cat == 14 else 0), "more observations than lie within the segment")
            need(n >= (6 if cat in (14, 24) else 12), "too few observations")
            if cat in (4, 6, 8):
                need(te - ts >= 365, "regular segment shorter than a year")
                # the category is the number of coefficients the number of observations allows
                need(n >= 3 * cat, "more coefficients than the observations allow")
        if prev is not None:
            need(ts >= prev[2], "segment starts before the previous break")
            need(ts > prev[1], "segments overlap")
        prev = (ts, te, tb)
        co, rm, mg = np.array(r["coefs"]), np.array(r["rmse"]), np.array(r["magnitude"])
        need(np.isfinite(co).all() and np.isfinite(rm).all() and np.isfinite(mg).all(), "not finite")
        need((rm >= 0).all(), "negative rmse")
        need((co[:, cat % 10:] == 0).all(), "coefficients beyond the category's number")
        if prob == 0:
            need((mg == 0).all(), "magnitude without a break")
        elif kind == "standard":
            need((mg != 0).any(), "break without magnitude")
    return bad


def one(case):
    form, word, conse, c2, tcg = case
    toks = "A" * 46 + word if form == "tail" else expand(word) if form == "phases" else word
    ser = from_tokens(toks, 724500 if form == "phases" else 730000, 16)
    if len(ser) < 1:
        return [], None
    a = ser.arrays()
    pos = 1 + len(word) * 7 + conse
    r = px.cold(a, conse=conse, b_c2=c2, pos=pos, t_cg=tcg)
    if r[0] == "none":
        return [], None
    if r[0] != "ok":
        return [("error", r)], None
    bad = check(r[1], a, pos, conse, c2)
    return [("record:" + b, px.cold_summary(r)) for b in sorted(set(bad))], px.digest(r[1])


def run(ctx):
    q = ctx.quick
    L = 5 if q else 6
    tail = "ABxcno=-"
    cases = [("tail", "".join(w), c, False, 15.0863) for c in ((3, 6) if q else (2, 4, 6)) for w in itertools.product(tail, repeat=L)
             if w[-1] != "="]
    run_cases(ctx, "tail", one, cases, describe=desc)
    L = 9 if q else 12
    cases = [("tail", "".join(w), c, c2, 15.0863) for c in range(1, 12) for c2 in ((False,) if q else (False, True))
             for w in itertools.product("AB", repeat=L)]
    run_cases(ctx, "tail-conse", one, cases, describe=desc)
    L = 4 if q else 5
    ph = sorted(PHASES)
    cases = [("phases", "".join(w), c, c2, t) for n in range(1, L + 1) for w in itertools.product(ph, repeat=n)
             for c, c2, t in (((6, False, 15.0863),) if q or n == L else ((6, False, 15.0863), (3, True, 15.0863), (11, False, 9.236)))]
    run_cases(ctx, "phases", one, cases, describe=desc)
    L = 3 if q else 4
    cases = [("phases", "".join(w), c, c2, t) for w in itertools.product(ph, repeat=L)
             for c in (1, 2, 3, 4, 5, 7, 8, 9, 10, 11) for c2 in (False, True) for t in ((15.0863,) if not q else (9.236,))
             if not q or c in (1, 3, 8, 11)]
    run_cases(ctx, "phases-conse", one, cases, describe=desc)
    ctx.coverage["exhaustive"] = True


def desc(c):
    return dict(form=c[0], word=c[1], conse=c[2], c2=c[3], tcg=c[4])
