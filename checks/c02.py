"""C02: break confirmation of COLD against the run automaton, over all tails."""
import itertools

from vlib import px
from vlib.harness import run_cases
from vlib.series import from_tokens

LEVEL = "model_checking"
TECHNIQUE = """explicit-state model checking of a run-counting automaton, every model trace replayed on the real
cold_detect"""
NOTE = """Exhaustive over all tails of the stated alphabet and length for conse 1..11; the automaton (consecutive
anomaly counter) is an independent model, and each of its traces is executed on the real code, so the model is bound
to it by construction.  Assumes that the token values are unmistakably model-following or deviating (fixed surface
reflectances far from / close to the fitted harmonic)."""
RULE = """A case is a stable start (two years) followed by every word over {stable, deviating, cloud/shadow/snow/fill}
of the stated length, for every conse; the automaton's outcome (break date, or date and probability of the unfinished
run, or nothing) must equal the first record's.  A case is non-trivial when the word contains a deviating
observation; distinct by the record list returned."""

PRE = 46
START, STEP = 730000, 16


class Run:
    """The specification automaton: state = dates of the current run of anomalies, or done."""

    def __init__(self, conse):
        self.conse, self.run, self.brk, self.log = conse, [], None, []

    def step(self, date, tok, dev):
        before = (min(len(self.run), self.conse), self.brk is not None)
        if self.brk is None and tok not in UNUSABLE:
            if tok == dev:
                self.run.append(date)
                if len(self.run) == self.conse:
                    self.brk = self.run[0]
            else:
                self.run = []
        after = (min(len(self.run), self.conse), self.brk is not None)
        self.log.append((before, tok == dev, tok in UNUSABLE, after))

    def outcome(self):
        if self.brk is not None:
            return ("break", self.brk, 100)
        if self.run:
            return ("unfinished", self.run[0], len(self.run) * 100 // self.conse)
        return ("stable", 0, 0)


UNUSABLE = "csnfo"


def one(case):
    base, dev, word, conse, c2 = case
    ser = from_tokens(base * PRE + word, START, STEP)
    a = Run(conse)
    for i, t in enumerate(word):
        a.step(START + STEP * (PRE + i), t, dev)
    want = a.outcome()
    r = px.cold(ser.arrays(), conse=conse, b_c2=c2)
    if r[0] != "ok":
        return [("no-result", r)], None
    f = r[1][0]
    p, b = int(f["change_prob"]), int(f["t_break"])
    got = ("break", b, p) if p == 100 else ("unfinished", b, p) if b or p else ("stable", 0, 0)
    fails = []
    if got != want:
        fails.append(("automaton", dict(want=want, got=got, records=px.cold_summary(r))))
    return fails, (px.digest(px.cold_summary(r)) if dev in word else None)


def run(ctx):
    q = ctx.quick
    plan = []
    L = 12 if q else 15
    plan.append(("tail-conse", [("A", "B", "".join(w), c, False) for c in range(1, 12)
                                for w in itertools.product("AB", repeat=L)]))
    L = 8 if q else 10
    plan.append(("tail-unusable", [("A", "B", "".join(w), c, False) for c in ((3, 6) if q else (2, 3, 4, 5, 6))
                                   for w in itertools.product("ABc", repeat=L)]))
    L = 6 if q else 8
    plan.append(("tail-kinds", [("A", "B", "".join(w), c, c2) for c in (3, 4) for c2 in (False, True)
                                for w in itertools.product("ABcsf"[:5 if not q else 4], repeat=L)]))
    L = 8 if q else 11
    plan.append(("tail-contrast", [(b, d, "".join(w), c, c2) for b, d in (("B", "A"), ("A", "G"), ("C", "B"))
                                   for c in (3, 5, 6) for c2 in (False, True) for w in itertools.product(b + d, repeat=L)]))
    states, trans, validated = set(), set(), 0
    for name, cases in plan:
        for base, dev, word, conse, _ in cases:
            a = Run(conse)
            for i, t in enumerate(word):
                a.step(i, t, dev)
            for b, x, u, c in a.log:
                states.add((conse, b))
                states.add((conse, c))
                trans.add((conse, b, x, u, c))
        res = run_cases(ctx, name, one, cases, describe=lambda c: dict(base=c[0], dev=c[1], word=c[2], conse=c[3], c2=c[4]))
        validated += sum(r is not None for r in res)
    ctx.coverage.update(states=len(states), transitions=len(trans), traces_validated_against_impl=validated, exhaustive=True)
