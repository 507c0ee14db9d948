"""C07: change-magnitude output against the reference model, plus grid-shift and non-interference relations."""
import numpy as np

from checks.c09 import EPS, expand, words
from vlib import cmodel, px
from vlib.harness import run_cases
from vlib.series import TEXTURES, textured

LEVEL = "model_checking"
TECHNIQUE = """exhaustive lock-step exploration: every bounded history x output grid is executed on the executable reference
model (which records every window it forms) and on the real cold_detect, and the whole change-magnitude output is compared"""
NOTE = """Exhaustive over the stated words x textures x grids (interval, first day of the grid, number of intervals).  Magnitudes
are compared within rounding (0.3 % or 2 units) and dates exactly unless two windows of an interval have the same magnitude."""
RULE = """Case = history (word) x texture x conse x interval x offset of the grid x surplus intervals.  The records must equal,
bit for bit, those without the output; every interval must hold a no-data pair or magnitude and date of the model's
strongest window that starts in it; a grid moved by whole intervals must give the moved output.  Non-trivial when at least
one interval holds a magnitude; distinct by output."""

JD = 723742


def one(case):
    form, word, tex, conse, c2, iv, off, extra, gap = case
    a = textured(expand(form, word), 724500, tex).arrays()
    if len(a[0]) < 1:
        return [], None
    first, last = int(a[0][0]), int(a[0][-1])
    plain = px.cold(a, conse=conse, b_c2=c2, gap_days=gap)
    if off is None:                             # the documented defaults of the three grid parameters
        kw, iv0, start = dict(), 60, first
        n = int(np.ceil((last - start + 1) / iv0)) + 1
    else:
        iv0, start = iv, first - off
        n = (last - start) // iv0 + 1 + extra
        kw = dict(starting_date=start, n_cm=n, cm_output_interval=iv0)
    r = px.cold(a, conse=conse, b_c2=c2, gap_days=gap, b_output_cm=True, **kw)
    if r[0] != plain[0]:
        return [("outcome", (r, plain[:2]))], None
    if r[0] != "ok":
        return [], None
    fails = []
    if not isinstance(r[1], list) or len(r[1]) != 3:
        return [("form", repr(type(r[1])))], None
    rec, cm, cd = r[1]
    if px.freeze(rec) != px.freeze(plain[1]):
        fails.append(("records-differ", (px.cold_summary(("ok", rec)), px.cold_summary(plain))))
    if cm.shape != (n,) or cd.shape != (n,):
        return fails + [("length", (cm.shape, cd.shape, n))], None
    usable = set(int(x) for x in a[0])
    for k in range(n):
        v, d = int(cm[k]), int(cd[k])
        if v == -9999 and d == -9999:
            continue
        day = d + JD
        if v == -9999 or d == -9999 or v < 0 or (day - start) // iv0 != k or day not in usable:
            fails.append(("pair", dict(interval=k, value=v, date=day, start=start, length=iv0)))
    want, st, (mv, md, tie) = cmodel.cold(a, conse, 15.0863, c2, gap, cm=(iv0, start, n))
    if want is not None and st["margin"] >= EPS:
        for k in range(n):
            v, w = int(cm[k]), int(mv[k])
            if (v == -9999) != (w == -9999) or abs(v - w) > max(2, 0.003 * abs(w)):
                fails.append(("value", dict(interval=k, got=v, model=w)))
            elif int(cd[k]) != int(md[k]) and not tie[k]:
                fails.append(("date", dict(interval=k, got=int(cd[k]) + JD, model=int(md[k]) + JD, value=v)))
    if off is not None:
        s2 = px.cold(a, conse=conse, b_c2=c2, gap_days=gap, b_output_cm=True, starting_date=start - 2 * iv0, n_cm=n + 2,
                     cm_output_interval=iv0)
        if s2[0] != "ok" or not np.array_equal(s2[1][1][2:], cm) or not np.array_equal(s2[1][2][2:], cd) \
                or (s2[1][1][:2] != -9999).any() or (s2[1][2][:2] != -9999).any():
            fails.append(("shift", dict(got=s2, want=(cm, cd))))
    return fails[:4], (px.digest((cm, cd)) if (cm != -9999).any() else None)


def run(ctx):
    q = ctx.quick
    ph = sorted("abgcnxXzdo-k")
    G = ((60, 0, 0), (32, 7, 3), (1, 0, 0), (500, 13, 1), (97, 96, 0), (0, None, 0))
    L = 3 if q else 4
    go("phases", ctx, [("phases", w, "plain", 6, False) + g + (365.25,) for w in words(ph, L) for g in G])
    go("textures", ctx, [("phases", w, t, c, c2) + g + (gap,) for w in words(ph, 2 if q else 3) for t in TEXTURES
                         for c, c2, gap in ((3, True, 365.25), (1, False, 100.0), (8, True, 200.0), (11, False, 365.25))
                         for g in G])
    L = 5 if q else 7
    go("tail", ctx, [("tail", w, "plain", c, False) + g + (365.25,) for c in (3, 5) for w in words("ABGxc", L)
                     for g in (G[:1] if q else G[:2])])
    go("tail-long", ctx, [(f, w, "dense", c, False) + g + (365.25,) for f in ("short", "long") for c in (2, 4, 7)
                          for w in words("AB", 8 if q else 10) for g in G[:2]])
    ctx.coverage["exhaustive"] = True


def go(part, ctx, cases):
    run_cases(ctx, part, one, cases, describe=desc)


def desc(c):
    return dict(zip(("form", "word", "texture", "conse", "c2", "interval", "offset", "extra", "gap"), c))
