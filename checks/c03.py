"""C03: unusable observations are inserted at every place of a history; nothing may change."""
import functools
import itertools

import numpy as np

from vlib import cmodel, px, spec
from vlib.harness import run_cases
from vlib.series import textured, values

LEVEL = "model_checking"
TECHNIQUE = """exhaustive exploration of operation sequences: every placement of up to two unusable observations (and every
pattern of them around a change) is inserted into each history and executed on the real cold_detect, obcold_reconstruct,
sccd_detect and sccd_update; results must be bit-identical to those of the history without them; values at the limits of
the valid range are decided by the documented range and the reference model"""
NOTE = """Exhaustive over histories x places x kinds of unusable observation (flag cloud/shadow/snow/fill with any content,
each band above and below its range, thermal out of range, second observation of a date).  Only pixels with enough clear
observations (C27 covers the others)."""
RULE = """Case = history x place(s) x kind(s) of inserted observation(s) x function x collection.  The result must equal, bit
for bit, the result of the history without the insertion.  Non-trivial when the history yields records or a state;
distinct by that result and the kind."""

HIST = {
    "stable": "A" * 50, "break": "A" * 44 + "B" * 14, "two": "A" * 36 + "B" * 34 + "A" * 30, "tail": "A" * 47 + "B" * 4,
    "spikes": "A" * 20 + "xAAx" + "A" * 24 + "BxB" + "A" * 5, "snowy": ("AAnA" * 15), "late": "c" * 10 + "A" * 40 + "G" * 8,
    "alt": "AB" * 30, "gap": "A" * 30 + "-" * 26 + "B" * 30, "water": "Aw" * 24 + "B" * 10,
}
BANDS = ("blue", "green", "red", "nir", "swir1", "swir2")
BREAKS = (724500 + 44 * 16, 724500 + 71 * 16)
ONLINE = {"A8": "A" * 8, "B7": "B" * 7, "mix": "ABBBAB", "x": "AxAA"}


def kinds():
    k = {}
    for name, qa in (("cloud", 4), ("shadow", 2), ("snow", 3), ("fill", 255)):
        k[name] = lambda v, qa=qa: v + [qa]                             # plausible values under the flag
        k[name + "-B"] = lambda v, qa=qa: [900, 1100, 1300, 2300, 2900, 2300, 3020, qa]
        k[name + "-0"] = lambda v, qa=qa: [0] * 7 + [qa]
        k[name + "-min"] = lambda v, qa=qa: [-9999] * 7 + [qa]
        k[name + "-max"] = lambda v, qa=qa: [65535] * 7 + [qa]
    for b, n in enumerate(BANDS):
        for tag, x in (("low", -9999), ("below", -201 if b == 0 else 0), ("edge", -200 if b == 0 else -1), ("top", 10000),
                       ("high", 20000)):
            k["%s-%s" % (n, tag)] = lambda v, b=b, x=x: v[:b] + [x] + v[b + 1:] + [0]
    for tag, x in (("cold", 1799), ("colder", 100), ("hot", 3440), ("hotter", 30000)):
        k["thermal-%s" % tag] = lambda v, x=x: v[:6] + [x, 0]
    return k


KINDS = kinds()
DUP = {"dup-same": lambda v: v + [0], "dup-B": lambda v: [900, 1100, 1300, 2300, 2900, 2300, 3020, 0],
       "dup-water": lambda v: v + [1], "dup-bright": lambda v: [9000, 9100, 9200, 9300, 9400, 9500, 3000, 0]}


@functools.lru_cache(None)
def base(name):
    return [tuple(r) for r in textured(HIST[name], 724500).rows]


def insert(rows, place, kind):
    """place: index of the observation the insertion follows (-1: before all); kind[0] '@' = same date"""
    p, same = place, kind.startswith("@") or kind.startswith("dup")
    f = DUP.get(kind) or KINDS[kind.lstrip("@<")]
    if kind.startswith("<"):                                            # same date, but before the observation
        d = rows[p + 1][0]
    elif same:
        d = rows[p][0]
    else:
        d = rows[p][0] + 3 if p >= 0 else rows[0][0] - 5
    return rows[:p + 1] + [(d,) + tuple(f(list(map(int, values(d, "A")))))] + rows[p + 1:]


def arr(rows):
    a = np.array(rows, np.int64).reshape(len(rows), 9)
    return [np.ascontiguousarray(a[:, i]) for i in range(9)]


_memo = {}


def evaluate(func, rows, conse, c2):
    a = arr(rows)
    if func == "cold":
        return px.cold(a, conse=conse, b_c2=c2)
    if func == "cm":
        return px.cold(a, conse=conse, b_c2=c2, b_output_cm=True, starting_date=724400, n_cm=60, cm_output_interval=60)
    if func == "obcold":
        return px.obcold(a, np.array(BREAKS, np.int64), conse=conse, b_c2=c2)
    if func == "sccd":
        return px.sccd(a, conse=min(conse, 8), b_c2=c2)
    if func == "pinpoint":
        return px.sccd(a, conse=min(conse, 8), b_c2=c2, b_pinpoint=True)
    raise KeyError(func)


def reference(func, name, conse, c2):
    k = (func, name, conse, c2)
    if k not in _memo:
        r = evaluate(func, base(name), conse, c2)
        _memo[k] = (px.freeze(r), r)
    return _memo[k]


def one(case):
    func, name, conse, c2, places, ks = case
    rows = base(name)
    for p, k in sorted(zip(places, ks), key=lambda x: (x[0], x[1][0] not in '@<d'), reverse=True):
        rows = insert(rows, p, k)
    want, wv = reference(func, name, conse, c2)
    got = evaluate(func, rows, conse, c2)
    if px.freeze(got) != want:
        return [("%s:%s" % ("sccd" if func == "pinpoint" else func, "/".join(sorted(set(kindgroup(k) for k in ks)))),
                 dict(want=wv, got=got))], None
    return [], (px.digest((wv[1], ks)) if wv[0] == "ok" else None)


def kindgroup(k):
    return ("same-date " if k[0] in "@<" else "") + k.lstrip("@<").split("-")[0]


def online(case):
    name, first, conse, c2, places, ks = case
    rows0 = base(name)
    key = ("pack", name, conse, c2)
    if key not in _memo:
        _memo[key] = px.sccd(arr(rows0), conse=conse, b_c2=c2)
    pack = _memo[key]
    if pack[0] != "ok":
        return [], None
    d0 = rows0[-1][0]
    new = [(r[0] + d0 - 724500 + 16,) + tuple(r[1:]) for r in textured(ONLINE[first], 724500).rows]
    new = [(r[0],) + tuple(values(r[0], t) if t in "AB" else r[1:8]) + (r[8],) for r, t in zip(new, ONLINE[first])]
    full = new
    for p, k in sorted(zip(places, ks), key=lambda x: (x[0], x[1][0] not in '@<d'), reverse=True):
        full = insert(full, p, k)
    want = px.update(pack[1], arr(new), conse=conse, b_c2=c2)
    got = px.update(pack[1], arr(full), conse=conse, b_c2=c2)
    if px.freeze(want) != px.freeze(got):
        return [("update:" + "/".join(sorted(set(kindgroup(k) for k in ks))), dict(want=want, got=got))], None
    return [], (px.digest((want, ks)) if want[0] == "ok" else None)


def refeed(case):
    """an update that repeats observations the state already has, before (and without) new ones"""
    name, first, conse, c2, back, alter = case
    rows0 = base(name)
    pack = px.sccd(arr(rows0), conse=conse, b_c2=c2)
    if pack[0] != "ok" or pack[1].nrt_mode == 0:
        return [], None
    m = pack[1]
    d0 = max([int(x["clrx_since1982"]) for x in m.nrt_queue[-1:]] + [int(m.nrt_model[0]["obs_date_since1982"].max()) if len(m.nrt_model) else 0]) + 723742
    new = [(d0 + 16 * (i + 1),) + tuple(values(d0 + 16 * (i + 1), t)) + (0,) for i, t in enumerate(first)]
    old = [r for r in rows0 if r[0] <= d0][-back:]
    if alter:
        old = [(r[0],) + tuple(values(r[0], alter)) + (0,) for r in old]
    want = px.update(m, arr(new), conse=conse, b_c2=c2) if new else ("ok", m)
    got = px.update(m, arr(old + new), conse=conse, b_c2=c2)
    if px.freeze(want) != px.freeze(got):
        return [("update:repeated dates", dict(mode=m.nrt_mode, want=want, got=got))], None
    return [], px.digest((got, back, alter))


def limits(case):
    """a clear observation whose band has a value at a limit: usable exactly as documented"""
    name, p, band, val, conse, c2 = case
    rows = base(name)
    d = rows[p][0] + 3
    v = list(map(int, values(d, "A")))
    v[band] = val
    row = (d,) + tuple(v) + (0,)
    rows2 = rows[:p + 1] + [row] + rows[p + 1:]
    got = px.cold(arr(rows2), conse=conse, b_c2=c2)
    got2 = px.sccd(arr(rows2), conse=conse, b_c2=c2)
    plain, p2 = reference("cold", name, conse, c2), reference("sccd", name, conse, c2)
    if not spec.in_range(row, c2):
        f = []
        if px.freeze(got) != plain[0]:
            f.append(("limit:cold", dict(row=row, got=px.cold_summary(got), want=px.cold_summary(plain[1]))))
        if px.freeze(got2) != p2[0]:
            f.append(("limit:sccd", dict(row=row, got=got2, want=p2[1])))
        return f, px.digest((name, band, val))
    want, st, _ = cmodel.cold(arr(rows2), conse, 15.0863, c2)
    if st["margin"] < 2e-4:
        return [], "near"
    if got[0] != "ok":
        return [("limit:cold", dict(row=row, got=got))], None
    diff = cmodel.compare(got[1], want)
    f = [("limit:cold", dict(row=row, differences=diff[:3]))] if diff else []
    return f, px.digest((got[1], band, val))


def run(ctx):
    q = ctx.quick
    names = sorted(HIST)
    n = {k: len(base(k)) for k in names}
    c1only = lambda k, c2: c2 and "thermal" in k

    def go(part, fn, cases):
        run_cases(ctx, part, fn, cases)
    funcs = ("cold", "obcold", "sccd", "cm", "pinpoint")
    step = 3 if q else 1
    K = sorted(KINDS)
    go("one", one, [(f, h, c, c2, (p,), (k,)) for i, h in enumerate(names) for f in funcs for j, k in enumerate(K)
                    for c, c2 in (((6, False), (3, True)) if f in ("cold", "sccd") else ((4, False),))
                    if not c1only(k, c2) for p in range(-1, n[h]) if p in (-1, n[h] - 1) or (p + j) % step == 0])
    go("one-same-date", one, [(f, h, 6, False, (p,), (x + k,)) for h in names for f in ("cold", "obcold", "sccd")
                              for k in ("cloud-B", "shadow-0", "snow-max", "fill", "nir-high", "green-below", "thermal-hot")
                              for x in "@<" for p in range(n[h] - 1) if x == "@" or p + 1 < n[h]])
    go("duplicates", one, [(f, h, c, c2, (p,), (k,)) for h in names for f in funcs for k in sorted(DUP)
                           for c, c2 in ((6, False), (3, True)) for p in range(n[h]) if base(h)[p][8] < 2])
    two = ("cloud-B", "snow", "fill-0", "red-top", "dup-B", "dup-bright")
    go("pairs", one, [(f, h, 4, False, (p, r), (k, m)) for f in ("cold", "sccd") for h in ("break", "tail", "spikes")
                      for k in two for m in two for p in range(40, n[h] - 1, 1 if not q else 2)
                      for r in range(p, n[h]) if base(h)[p][8] < 2 and base(h)[r][8] < 2 and (p != r or k < m)])
    # every pattern of insertions around the change
    L = 6 if q else 8
    go("patterns", one, [(f, "break", c, False, tuple(41 + i for i, k in enumerate(w) if k != "-"),
                          tuple({"c": "cloud-B", "d": "dup-B", "h": "nir-high"}[k] for k in w if k != "-"))
                         for f in ("cold", "sccd", "obcold") for c in (3, 6) for w in itertools.product("-cdh", repeat=L)
                         if any(k != "-" for k in w)])
    go("online", online, [(h, o, c, c2, (p,), (k,)) for h in ("stable", "break", "tail", "alt") for o in sorted(ONLINE)
                          for c, c2 in ((6, False), (3, True)) for k in K if not c1only(k, c2)
                          for p in range(-1, len(ONLINE[o]))])
    go("online-same-date", online, [(h, o, c, False, (p,), (k,)) for h in ("stable", "break", "tail", "alt")
                                    for o in sorted(ONLINE) for c in (3, 6) for p in range(len(ONLINE[o]))
                                    for k in list(DUP) + ["@cloud-B", "<cloud-B", "@red-high"]
                                    if k[0] != "<" or p + 1 < len(ONLINE[o])])
    go("refeed", refeed, [(h, o, c, c2, b, alt) for h in names for o in ("", "A", "B", "AAB", "BBBBBB") for c, c2 in ((6, False), (3, True), (8, False))
                          for b in list(range(1, 13)) + [40] for alt in ("", "B")])
    edge = {0: (-202, -201, -200, -199, 9999, 10000, 10001)}
    for b in range(1, 6):
        edge[b] = (-1, 0, 1, 9998, 9999, 10000, 10001)
    edge[6] = (0, 1, 1799, 1800, 1801, 3438, 3439, 3440, 27320)
    go("limits", limits, [(h, p, b, v, c, c2) for h in ("stable", "break") for b in edge for v in edge[b]
                          for p in (0, 5, 30, 44, 49) for c in (3, 6) for c2 in (False, True)])
    ctx.coverage["exhaustive"] = True
