"""C08: object-based reconstruction against the reference model, over all bounded sets of requested breaks."""
import itertools

import numpy as np

from checks.c09 import PHASES, words
from vlib import cmodel, px, spec
from vlib.harness import run_cases
from vlib.series import TEXTURES, textured

LEVEL = "model_checking"
TECHNIQUE = """exhaustive lock-step exploration: every bounded history x every set of requested break dates is executed on the
executable reference model and on the real obcold_reconstruct; order, repetition and zeros of the requests are permuted"""
NOTE = """Exhaustive over the stated histories x all subsets (up to the stated size) of a grid of requested dates that covers
dates before, on, between and after the observations.  Numeric fields within rounding, as in C09."""
RULE = """Case = history (word) x texture x conse x collection x set of requested dates.  Records must equal the model's, breaks
must be the usable observations nearest to requests, segments consecutive, and reversed, repeated or zero-padded requests
must give identical bits.  Non-trivial when at least one break is recorded; distinct by records."""



EPS = 3e-3      # a reconstruction screens observations against fits that are exact to about this much


def series(word, tex):
    return textured("".join(PHASES[t] for t in word), 724500, tex).arrays()


def one(case):
    word, tex, conse, c2, offs = case
    a = series(word, tex)
    if len(a[0]) < 1:
        return [], None
    req = [724500 + o for o in offs]
    br = np.array(req + [0] * (1 if len(req) == 0 else 0), np.int64)
    r = px.obcold(a, br, conse=conse, b_c2=c2)
    fails = []
    variants = [req[::-1] + [0], [0, 0] + req[1::2] + req[::2], [x for x in req for _ in (0, 1)] + [0] * 12]
    for v in variants:
        s = px.obcold(a, np.array(v, np.int64), conse=conse, b_c2=c2)
        if s[0] != r[0] or (r[0] == "ok" and px.freeze(s[1]) != px.freeze(r[1])):
            fails.append(("order", dict(requests=req, variant=v, first=px.cold_summary(r), second=px.cold_summary(s))))
            break
    want, st = cmodel.rebuild(a, req, conse, c2)
    near = bool(st["margin"] < EPS)
    if want is None:
        return fails + ([] if r[0] == "error" else [("capacity", px.cold_summary(r))]), None
    if r[0] == "error":
        return fails + [("error", r)], None
    got = r[1] if r[0] == "ok" else np.zeros(0)
    if r[0] == "ok":
        fails += shape(a, req, got)
    if not near:
        d = cmodel.compare(got, want, rebuilt=True)
        if d:
            fails.append(("model:" + str(d[0][1] if d[0][0] != "records" else "records"),
                          dict(requests=req, differences=d[:4], got=px.cold_summary(r),
                               model=[tuple(int(x) for x in tuple(w)[:6]) for w in want])))
    return fails, ("near" if near else px.digest(got) if len(got) > 1 else None)


def shape(a, req, rec):
    """what has to hold whatever the model says"""
    fails = []
    dates = sorted(set(int(d) for d, q in zip(a[0], a[8]) if q < 2))
    clean = sorted(set(int(row[0]) for row in zip(*a) if row[8] < 2))
    ask = sorted(set(req))
    for i, x in enumerate(rec):
        s, e, b = int(x["t_start"]), int(x["t_end"]), int(x["t_break"])
        last = i == len(rec) - 1
        days = dates if int(x["category"]) < 40 else [int(d) for d in a[0]]
        if s > e or s not in days or e not in days:
            fails.append(("segment", (s, e)))
        if last and (b or x["change_prob"] or np.abs(x["magnitude"]).sum()):
            fails.append(("last", px.cold_summary(("ok", rec))))
        if not last:
            if b not in dates or b <= e or b > int(rec[i + 1]["t_start"]) or x["change_prob"] != 100:
                fails.append(("break", px.cold_summary(("ok", rec))))
            elif not any(abs(b - q) <= min(abs(d - q) for d in clean) + 400 for q in ask):
                fails.append(("invented", px.cold_summary(("ok", rec))))
    return fails


def run(ctx):
    q = ctx.quick

    def go(part, cases):
        run_cases(ctx, part, one, cases, describe=lambda c: dict(zip(("word", "texture", "conse", "c2", "requests"), c)))
    # all subsets of a coarse grid over histories of one to three phases
    grid = (-40, 0, 176, 371, 552, 744, 920, 1300)
    subs = [s for n in range(0, len(grid) + 1) for s in itertools.combinations(grid, n)]
    ph = sorted("abgcnz") if q else sorted(PHASES)
    go("subsets", [(w, "plain", 6, False, s) for n in (1, 2, 3) for w in words(ph, n) for s in subs])
    # every single request and every pair, day by day around one observation and over two histories
    days = range(-20, 700, 1 if q else 1)
    go("every-day", [(w, t, c, False, (d,)) for w in ("ab", "aab", "abX", "gb", "acb", "bxab") for t in ("plain", "dense")
                     for c in (1, 6, 11) for d in days])
    step = 48 if q else 16
    go("pairs", [(w, "plain", 6, c2, (d, e)) for w in ("aba", "abab", "gXbd", "ancb") for c2 in (False, True)
                 for d in range(0, 1300, step) for e in range(d, 1300, 16)])
    # texture x parameters
    g2 = (200, 330, 580, 700, 960)
    subs2 = [s for n in range(1, 4) for s in itertools.combinations(g2, n)]
    go("parameters", [(w, t, c, c2, s) for w in words(("a", "b", "g", "X", "d", "n") if q else ph, 3) for t in TEXTURES
                      for c, c2 in ((1, True), (3, False), (8, True), (11, False)) for s in subs2])
    ctx.coverage["exhaustive"] = True
