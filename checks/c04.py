"""C04: every short sequence of calls, under every heap content and argument layout, gives the results of a lone call."""
import itertools
import os
import pickle

import numpy as np

from vlib import dirty, px, states
from vlib.harness import pmap, run_cases
from vlib.series import from_tokens

LEVEL = "model_checking"
TECHNIQUE = """stateless exploration of call histories: every sequence of calls up to the stated depth over an alphabet that covers
each function and branch is executed in a forked process, under every chosen content of freshly allocated and freed memory
(mallopt M_PERTURB) and of the stack below the caller, and every result is compared bit for bit with that of the lone call in a fresh process"""
NOTE = """Exhaustive over the stated call alphabet, depth, memory patterns and argument layouts.  Heap content is enforced on every
malloc and free, stack content below the caller at every call."""
RULE = """Case = sequence of (call, memory pattern), or call x argument layout.  Every result must equal the golden one bit for
bit, every argument and every earlier result must be unchanged at the end.  Non-trivial when the last call returns records or
a state; distinct by the golden results involved and the pattern."""

W = {
    "break": "A" * 46 + "B" * 20, "spikes": "AxAAAA" * 9 + "B" * 3, "snow": "nA" + "nnnA" * 12, "few": "AcccA" * 9,
    "none": "c" * 5 + "A" * 3, "texture": "AB" * 35, "long": ("A" * 40 + "B" * 30) * 4, "dups": "A=Ac" * 30,
    "queue": "A" * 40 + "B" * 17, "short": "A" * 24, "zero": "c" * 24, "one": "c" * 20 + "A",
}


def arrays(name, dtype=np.int64):
    return from_tokens(W[name], 724500, 16).arrays(dtype)


BREAKS = [725300, 0, 724900, 726000]


def alphabet():
    c = {}
    for w in ("break", "spikes", "snow", "few", "none", "texture", "long", "dups"):
        c["cold " + w] = lambda a, w=w: px.cold(a(w), conse=4)
    c["cold c2"] = lambda a: px.cold(a("break"), conse=6, b_c2=True, t_cg=9.2)
    c["cm break"] = lambda a: px.cold(a("break"), conse=3, b_output_cm=True)
    c["cm long"] = lambda a: px.cold(a("long"), conse=8, b_output_cm=True, starting_date=724400, n_cm=150, cm_output_interval=32)
    for w in ("break", "long", "few", "snow", "none"):
        c["obcold " + w] = lambda a, w=w: px.obcold(a(w), a("#breaks"), conse=5)
    for w in ("break", "spikes", "snow", "few", "texture", "long", "queue", "short", "none"):
        c["sccd " + w] = lambda a, w=w: px.sccd(a(w), conse=4)
    c["sccd pinpoint"] = lambda a: px.sccd(a("long"), conse=6, b_pinpoint=True)
    for w in ("break", "queue", "snow", "short", "texture", "zero", "one"):
        c["update " + w] = lambda a, w=w: update(a, w)
    return c


def update(a, w):
    p = px.sccd(a(w), conse=4)
    if p[0] != "ok":
        return p
    pack = p[1]
    n = len(W[w])
    out = [px.freeze(pack)]
    for k, toks in enumerate(("BB", "B", "c", "A", "BBBBBBBB")):
        new = from_tokens(toks, 724500 + 16 * (n + 10 * k), 16).arrays()
        before = px.freeze(pack)
        r = px.update(pack, new, conse=4)
        if px.freeze(pack) != before:
            return ("modified", "state passed to update %d of %s" % (k, w))
        out.append(px.freeze(r))
        if r[0] == "ok":
            pack = r[1]
    return ("ok", (tuple(out),))


CALLS = alphabet()


def plain(name):
    return np.array(BREAKS, np.int64) if name == "#breaks" else arrays(name)


LAYOUTS = {}


def layout(f):
    LAYOUTS[f.__name__] = f
    return f


@layout
def strided(x):
    y = np.full(3 * len(x), 77, x.dtype)
    y[1::3] = x
    return y[1::3]


@layout
def reverse(x):
    return x[::-1].copy()[::-1]


@layout
def column(x):
    m = np.full((len(x), 9), -5, x.dtype)
    m[:, 4] = x
    return m[:, 4]


@layout
def fortran(x):
    m = np.full((5, len(x)), 9, x.dtype, order="F")
    m[2] = x
    return m[2]


@layout
def readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


@layout
def int32(x):
    return x.astype(np.int32)


@layout
def bigendian(x):
    return x.astype(">i8")


@layout
def float64(x):
    return x.astype(np.float64)


@layout
def unaligned(x):
    raw = np.zeros(x.nbytes + 1, np.uint8)
    y = raw[1:].view(x.dtype)
    y[:] = x
    return y


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            os._exit(98)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if st or not data:
        raise RuntimeError("call sequence ended its process: status %d" % st)
    return pickle.loads(data)


def golden(case):
    return px.freeze(CALLS[case](plain))


def sequence(case, gold=None):
    """run the calls; returns list of problems"""
    steps, lay = case
    bad, handed, args = [], [], []
    f = LAYOUTS.get(lay, lambda x: x)

    def get(name):
        v = plain(name)
        v = f(v) if isinstance(v, np.ndarray) else [f(x) for x in v]
        args.append((name, v, px.freeze(v)))
        return v
    for i, (c, pat) in enumerate(steps):
        dirty.heap(pat)
        dirty.stack(pat)
        r = CALLS[c](get)
        z = px.freeze(r)
        handed.append((i, c, r, z))
        if z != gold[c]:
            bad.append((c, i))
    dirty.heap(0)
    dirty.stack(None)
    late = [("late", c, i) for i, c, r, z in handed if px.freeze(r) != z]
    mod = [("argument", n) for n, v, z in args if px.freeze(v) != z]
    return [("result", ) + b for b in bad] + late + mod


GOLD = {}


def one(case):
    prob = forked(lambda: sequence(case, GOLD))
    fails = []
    for p in prob:
        fails.append(({"result": "result-differs:", "late": "handed-out-result-changed:", "argument": "argument-modified:"}[p[0]]
                      + p[1].split()[0].lstrip("#"), dict(problem=p, sequence=case)))
    key = tuple(GOLD[c][:0] + c.encode() for c, _ in case[0])
    return fails[:1], px.digest((key, tuple(p for _, p in case[0]), case[1]))


FILLS = (0, 0xc7, 0x41)


def under(fn):
    """the results of the call under each content of unwritten memory"""
    out = []
    for b in FILLS:
        dirty.heap(b)
        dirty.stack(b)
        out.append(fn())
    dirty.heap(0)
    dirty.stack(None)
    return out


def agree(fails, key, fn, **where):
    r = under(fn)
    z = [px.freeze(x) for x in r]
    if len(set(z)) > 1:
        fails.append(("result-depends-on-unwritten-memory:" + key, dict(where, results=[repr(x)[:300] for x in r])))
    return r[0], z[0]


def tiny(case):
    """every history of a few observations, preceded by nothing, by cloud, or by clear observations"""
    before, word, conse = case
    rows = from_tokens(before + word, 724500, 95)
    a = rows.arrays()
    fails, seen = [], []
    seen.append(agree(fails, "cold", lambda: px.cold(a, conse=conse), word=before + word)[1])
    seen.append(agree(fails, "cold-cm", lambda: px.cold(a, conse=conse, b_output_cm=True, starting_date=724400, n_cm=20,
                                                        cm_output_interval=16), word=before + word)[1])
    seen.append(agree(fails, "obcold", lambda: px.obcold(a, np.array([724700, 724900], np.int64), conse=conse),
                      word=before + word)[1])
    seen.append(agree(fails, "sccd", lambda: px.sccd(a, conse=conse), word=before + word)[1])
    n = len(before)
    p = px.sccd([x[:n] for x in a], conse=conse) if n else ("none",)
    if p[0] == "ok":
        new = [np.ascontiguousarray(x[n:]) for x in a]
        seen.append(agree(fails, "update", lambda: px.update(p[1], new, conse=conse), word=before + word, at=n)[1])
    return fails[:2], px.digest(tuple(seen))


def walking(case):
    """every state along short walks: each single update and the answer to it"""
    name, conse, gap, tok = case
    fails, seen, st = [], set(), 0
    rows = states.initial(name)
    r, _ = agree(fails, "sccd", lambda: px.sccd(states.arr(rows), conse=conse), history=name)
    if r[0] != "ok":
        return [("detect-error", r)], None

    def go(p, date, path, n):
        nonlocal st
        for t in ((tok,) if not path else "ABcn"):
            row = states.feed_row(name, t, date + gap)
            x, z = agree(fails, "update", lambda: px.update(p, states.arr([row]), conse=conse), history=name, path=path + t)
            st += 1
            seen.add(px.digest(z))
            if x[0] == "ok" and n > 1 and len(fails) < 4:
                go(x[1], row[0], path + t, n - 1)
    go(r[1], rows[-1][0], "", DEPTH)
    return fails[:2], dict(digests=seen, transitions=st * len(FILLS))


DEPTH = 3


def run(ctx):
    global DEPTH
    q = ctx.quick
    names = sorted(CALLS)
    px._mod()                       # imported once, before the processes are forked
    res, crash = pmap(golden, names, str(ctx.scratch), nproc=len(names))
    for c, r in zip(names, res):
        if r is None or isinstance(r, tuple) or b"modified" in r[:40]:
            ctx.fail("golden", c, (r, crash))
            return
        GOLD[c] = r
    assert len(set(GOLD.values())) >= len(names) - 4, "calls of the alphabet coincide"

    def go(part, cases):
        run_cases(ctx, part, one, cases, describe=lambda c: dict(steps=c[0], layout=c[1]))
    pats = (0, 0x55, 0xff) if q else (0, 1, 0x3f, 0x55, 0x80, 0xff)
    go("alone", [(((c, p),), "") for c in names for p in range(256)])
    go("pairs", [(((a, p), (b, r)), "") for a in names for b in names for p in pats for r in pats])
    few = ("cold break", "cold snow", "cm long", "obcold long", "obcold few", "sccd long", "sccd pinpoint", "sccd snow", "update queue",
           "cold texture")
    d = few
    go("triples", [(tuple((c, p) for c in w), "") for w in itertools.product(d, repeat=3) for p in (0x55, 0xff)])
    go("layout", [(((c, p),), lay) for c in names for lay in LAYOUTS for p in pats])
    DEPTH = 3 if q else 5
    words = ["".join(w) for n in range(1, 5 if q else 7) for w in itertools.product("ABcnx=", repeat=n) if w[0] != "="]
    run_cases(ctx, "tiny", tiny, [(b, w, k) for b in ("", "ccccc", "A", "cccA") for w in words for k in (3,)])
    run_cases(ctx, "walks", walking, [(h, k, g, t) for h in sorted(states.INIT) for k in ((1, 4) if q else (1, 2, 3, 4, 6, 8))
                                      for g in ((16,) if q else (16, 120)) for t in "ABcn"], case_timeout=240)
    ctx.coverage["exhaustive"] = True
