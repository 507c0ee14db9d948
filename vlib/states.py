"""Exploration of S-CCD states: initial states from offline runs, one transition per fed observation.

A state is reached by a path (initial history name, tokens fed one by one); the explorer keeps the
usable observations of the path, which is all the oracles need."""
import numpy as np

from . import px, spec
from .series import textured, token_row, texture_row

LAUNCH = 723742
START = 724500

# offline histories: (tokens, texture)
INIT = {
    "monitor": ("A" * 50, "plain"),
    "season": ("A" * 60, "season"),
    "trend": ("A" * 60, "trend"),
    "dense": ("A" * 90, "dense"),
    "clouds": ("AAcAs" * 14, "plain"),
    "run1": ("A" * 48 + "B", "plain"),
    "run2": ("A" * 48 + "BB", "plain"),
    "broken": ("A" * 48 + "B" * 9, "plain"),
    "rebuilt": ("A" * 40 + "B" * 45, "plain"),
    "two": ("A" * 40 + "B" * 40 + "A" * 40, "plain"),
    "queue": ("A" * 12, "sparse2"),
    "queue18": ("A" * 17, "sparse2"),
    "alt": ("AB" * 20, "plain"),
    "spiky": ("A" * 12 + "x" + "A" * 25 + "x" + "A" * 12, "plain"),
    "late": ("c" * 20 + "A" * 9, "plain"),
    "void": ("c" * 30, "plain"),
    "snow": ("n" * 10, "sparse2"),
    "snow17": ("n" * 17, "sparse2"),
    "snowfull": ("n" * 40, "plain"),
    "snowmix": ("nnnA" * 12, "plain"),
    "green": ("C" * 50, "plain"),
}
STEP = {"sparse2": 48}


def initial(name):
    """-> rows"""
    toks, tex = INIT[name]
    if tex in STEP:
        return [tuple(token_row(t, START + STEP[tex] * k)) for k, t in enumerate(toks)]
    return [tuple(r) for r in textured(toks, START, tex).rows]


def texture_of(name):
    t = INIT[name][1]
    return "plain" if t in STEP else t


def arr(rows):
    a = np.array(rows, np.int64).reshape(len(rows), 9)
    return [np.ascontiguousarray(a[:, i]) for i in range(9)]


def feed_row(name, tok, date):
    """'=' tokens are handled by the caller (same date as before)"""
    return tuple(int(v) for v in texture_row(tok, date, texture_of(name), START))


def usable(rows, c2, snow):
    """the observations (date, 6 values) S-CCD works with, first of each date"""
    out, last = [], None
    for r in rows:
        ok = (r[8] == 3 or r[8] < 2) if snow else (r[8] < 2 and spec.in_range(r, c2))
        if ok and (last is None or r[0] > last):
            out.append((int(r[0]),) + tuple(int(v) for v in r[1:7]))
            last = r[0]
    return out


def extend(use, row, c2, snow):
    """usable observations after one more row"""
    ok = (row[8] == 3 or row[8] < 2) if snow else (row[8] < 2 and spec.in_range(row, c2))
    if ok and (not use or row[0] > use[-1][0]):
        return use + [tuple(int(v) for v in row[:7])]
    return use


def is_snow(rows):
    q = [r[8] for r in rows]
    sn, cl = q.count(3), sum(x < 2 for x in q)
    return sn / (sn + cl + 0.01) >= 0.75


def kind(p):
    m = p.nrt_mode
    return {3: "snow-monitor", 4: "snow-queue", 0: "void"}.get(m) or {1: "monitor", 2: "queue", 5: "both"}[m % 10]


def walk(name, conse, c2, gap, prefix, alpha, depth, visit):
    """every state along every word of the alphabet starting with the prefix; visit(state, path, last date) -> stop?
    '!' is a confirmation of a running alert.  Returns [(key, detail)] of calls that failed"""
    import pycold
    from . import px
    rows = initial(name)
    fails = []
    r = px.sccd(arr(rows), conse=conse, b_c2=c2)
    if r[0] != "ok":
        return [("detect-error", r)]
    visit(r[1], "", rows[-1][0])

    def go(p, date, path, n):
        if n == 0 or len(fails) > 5:
            return
        for t in (alpha if len(path) >= len(prefix) else (prefix[len(path)],)):
            if t == "!":
                x = pycold.sccd_identify(p, dist_conse=1, t_cg_scale100=1.0, t_angle_scale100=17999)[0]
                if x.nrt_mode != p.nrt_mode and not visit(x, path + "!", date):
                    go(x, date, path + "!", n - 1)
                continue
            row = feed_row(name, t, date + gap)
            r = px.update(p, arr([row]), conse=conse, b_c2=c2)
            if r[0] != "ok":
                fails.append(("update-error", dict(path=path + t, result=r)))
                continue
            if not visit(r[1], path + t, row[0]):
                go(r[1], row[0], path + t, n - 1)
    go(r[1], rows[-1][0], "", depth)
    return fails
