"""C06: bounded-exhaustive execution of the detectors under AddressSanitizer."""
import itertools

import numpy as np

from checks.c09 import PHASES, words
from vlib import px
from vlib.harness import run_cases
from vlib.series import from_tokens, textured, values

LEVEL = "model_checking"
VARIANT = "asan"
TECHNIQUE = """exhaustive exploration of bounded inputs and call sequences on the real code compiled with AddressSanitizer (heap,
stack and global red zones around every buffer, the caller's arrays included); a report, signal or missing answer is a violation"""
NOTE = """Exhaustive over the stated words, lengths, parameters and sequences of updates.  Only accesses that leave an object are
detected (not those that stay inside a wrong row of the same allocation; the value-level checks see these)."""
RULE = """Case = function x history x parameters (x sequence of updates).  It must return or raise within the time limit without a
sanitizer report.  Non-trivial when records or a state are returned; distinct by the outcome's digest."""


def build(form, word):
    if form == "tokens":
        return from_tokens(word, 724500, 16).arrays()
    if form == "phases":
        return textured("".join(PHASES[t] for t in word), 724500).arrays()
    if form == "many":                       # word, repeated n times, step in days
        w, n, step = word
        return from_tokens(w * n, 723800, step).arrays()
    if form == "extreme":
        kind, n = word
        a = from_tokens("A" * n, 724500, 16).arrays()
        for i in range(1, 9):
            if kind == "zero":
                a[i][:] = 0
            elif kind == "const":
                a[i][:] = 500 if i < 7 else 2950
            elif kind == "limits":
                a[i][:] = np.where(np.arange(n) % 2, 1, 9999)
            elif kind == "int64":
                a[i][:] = np.where(np.arange(n) % 2, 2 ** 63 - 1, -2 ** 63)
            elif kind == "int32":
                a[i][:] = np.where(np.arange(n) % 3, 2 ** 31, -2 ** 31)
            elif kind == "ramp":
                a[i][:] = 1 + np.arange(n) * 9990 // max(n, 1)
        a[8][:] = 0
        if kind == "snowconst":
            a[8][:] = 3
        if kind in ("zero", "const", "limits", "ramp"):
            a[7][:] = 2950
        return a
    if form == "dates":
        start, step, n = word
        a = from_tokens("A" * n, 724500, 16).arrays()
        a[0][:] = start + step * np.arange(n)
        return a
    raise KeyError(form)


def run_func(func, a, kw):
    if func == "cold":
        return px.cold(a, **kw)
    if func == "cm":
        return px.cold(a, b_output_cm=True, **kw)
    if func == "cm1":                        # smallest window that covers the dates
        kw = dict(kw)
        iv = kw.pop("iv", 32)
        if not len(a[0]):
            return ("none",)
        n = (int(a[0][-1]) - int(a[0][0])) // iv + 1
        return px.cold(a, b_output_cm=True, starting_date=int(a[0][0]), n_cm=n, cm_output_interval=iv, **kw)
    if func == "cmany":                      # any window, also one that does not cover the dates
        off, n, iv = dict(kw)["window"]
        return px.cold(a, b_output_cm=True, starting_date=int(a[0][0]) + off, n_cm=n, cm_output_interval=iv)
    if func == "obcold":
        kw = dict(kw)
        br = kw.pop("breaks", ())
        return px.obcold(a, np.array(br, np.int64), **kw)
    if func == "sccd":
        return px.sccd(a, **kw)
    if func == "pinpoint":
        return px.sccd(a, b_pinpoint=True, **kw)
    raise KeyError(func)


def one(case):
    func, form, word, kw = case
    r = run_func(func, build(form, word), dict(kw))
    return [], (px.digest(r[1]) if r[0] == "ok" else None)


def chain(case):
    """initial history, then a sequence of update batches"""
    func, init, batches, conse, c2 = case
    r = px.sccd(from_tokens(init, 724500, 16).arrays(), conse=conse, b_c2=c2)
    if r[0] != "ok":
        return [], None
    pack = r[1]
    n = len(init)
    out = []
    for b in batches:
        a = from_tokens(b, 724500 + 16 * n, 16).arrays()
        n += len(b)
        r = px.update(pack, a, conse=conse, b_c2=c2)
        if r[0] == "ok":
            pack = r[1]
            import pycold
            px.call(pycold.sccd_identify, pack)
        out.append(r[0] == "ok" and pack.nrt_mode)
    return [], px.digest((tuple(out), pack))


def mixed(case):
    """an update with another conse than the state's"""
    init, c1, c2, batch = case
    r = px.sccd(from_tokens(init, 724500, 16).arrays(), conse=c1)
    if r[0] != "ok":
        return [], None
    u = px.update(r[1], from_tokens(batch, 724500 + 16 * len(init), 16).arrays(), conse=c2)
    return [], px.digest((c1, c2, u[0], r[1]))


def run(ctx):
    q = ctx.quick
    def go(part, fn, cases, limit=60):
        run_cases(ctx, part, fn, cases, crash_key=part, case_timeout=limit)
    F = ("cold", "cm", "cm1", "obcold", "sccd", "pinpoint")

    def kws(func, conse, c2):
        kw = [("conse", min(conse, 8) if func in ("sccd", "pinpoint") else conse), ("b_c2", c2)]
        if func == "obcold":
            kw.append(("breaks", (724900, 725400, 726000, 0)))
        return tuple(kw)
    # every short series
    L = 5 if q else 7
    go("short", one, [(f, "tokens", w, kws(f, 6, False)) for f in F for n in range(1, L + 1) for w in words("ABcnf=", n)
                      if w[0] != "="])
    # runs: lengths around every threshold of the algorithms
    lens = (0, 1, 2, 5, 6, 7, 11, 12, 13, 17, 18, 19, 23, 24, 25, 26, 31)
    go("lengths", one, [(f, "tokens", p + "A" * i + "B" * j, kws(f, c, c2)) for f in F for p in ("", "c" * 13, "n" * 9) for i in lens
                        for j in lens if i + j for c, c2 in ((1, False), (6, True), (11, False))])
    K = 3 if q else 4
    go("phases", one, [(f, "phases", w, kws(f, c, False)) for f in F for n in range(1, K + 1) for w in words(sorted(PHASES), n)
                       for c in ((2, 8) if n < 3 else (6,))])
    # dozens of changes, thousands of observations
    many = [(w, n, s) for w, n, s in itertools.product(("A" * 26 + "B" * 26, "A" * 30 + "B" * 9, "A" * 24 + "B", "AB", "A",
                                                        "AAAAAAx", "A" * 12 + "B" * 12, "nA", "A" * 40 + "B" * 40 + "C" * 40 + "G" * 40),
                                                       (1, 7, 40, 45, 90), (2, 16))
            if len(w) * n * s < 32000 and len(w) * n < 4500]
    go("many", one, [(f, "many", m, kws(f, c, False)) for f in F for m in many for c in (1, 3, 6, 8)] +
       [("obcold", "many", ("A" * 30, 40, 16), (("breaks", tuple(range(724100, 724100 + s * n, s))),)) for s in (1, 90, 366, 400)
        for n in (1, 38, 39, 40, 41, 60, 200)], 120)
    # a change within the first observations, every position x confirmation length
    go("early-change", one, [(f, "tokens", p + a * i + b * 40, kws(f, c, False)) for f in F for i in range(1, 40) for c in range(1, 12)
                             for a, b in ("AB", "BA", "GB", "BG") for p in ("", "AAAA" + "-" * 30) if c <= 8 or f[0] != "s"])
    ext = [(k, n) for k in ("zero", "const", "limits", "int64", "int32", "ramp", "snowconst") for n in (1, 2, 3, 5, 11, 12, 23, 24, 30, 60)]
    go("extreme", one, [(f, "extreme", e, kws(f, c, c2)) for f in F for e in ext for c in (1, 6, 11) for c2 in (False, True)])
    go("dates", one, [(f, "dates", d, kws(f, 6, False)) for f in F for d in itertools.product(
        (1, 365, 723742, 730000, 756000), (0, 1, 2, 30, 364, 400, 3000), (1, 12, 24, 40, 60))])
    go("thresholds", one, [(f, "phases", w, kws(f, c, False) + (("t_cg", t),)) for f in F if f != "obcold"
                           for w in ("aba", "gbX", "zaz", "add") for c in range(1, 12)
                           for t in (1e-9, 0.01, 1.0, 9.2, 100.0, 1e9)])
    go("windows", one, [("cm1", "phases", w, (("conse", c), ("iv", iv))) for w in ("aabb", "aaX", "a", "aag", "zz", "abab") for c in range(1, 12)
                        for iv in (list(range(1, 70)) + [500, 5000, 100000])])
    go("windows-any", one, [("cmany", "phases", w, (("window", (o, n, iv)),)) for w in ("aabb", "aag") for iv in (1, 16, 32, 60, 61, 500)
                            for o in (-1000, -61, -60, -1, 0, 1, 16, 60, 400, 900) for n in list(range(1, 33)) + [100, 800, 900, 2000]])
    # update sequences
    B = ("A", "B", "c", "AAAAAAAA", "BBBBBBBB", "n" * 5, "AB" * 12, "A" * 250)
    for_init = ("A" * 30, "A" * 46 + "B" * 5, "A" * 40 + "B" * 12, "nA" + "n" * 10, "n" * 8, "c" * 30, "AB" * 20, "nnnA" * 12)
    D = 2 if q else 3
    go("updates", chain, [("chain", i, b, c, c2) for i in for_init for n in range(1, D + 1) for b in itertools.product(B, repeat=n)
                          for c, c2 in ((1, False), (6, True), (8, False))])
    go("mixed-conse", mixed, [(i, c, d, b) for i in for_init for c in range(1, 9) for d in range(1, 16)
                              for b in ("A", "B" * 9, "AAAB", "A" * 60)])
    go("long-queue", chain, [("chain", i, (t * k,) * m, c, False) for i in ("A" * 30, "A" * 40 + "B" * 12, "n" * 20, "c" * 30)
                             for t in ("AB", "nA", "A", "ABG") for k, m in ((1, 60), (60, 4), (121, 2), (1, 130)) for c in (1, 4, 8)], 120)
    ctx.coverage["exhaustive"] = True
