"""Synthetic pixel histories used by the enumerations.

A history is a list of tokens, one per acquisition; a token decides the QA flag and the land
cover ("regime") the surface reflectance is drawn from.  Values are a fixed harmonic per regime
plus a small, fixed (date- and band-dependent) perturbation, so the space of histories is finite
and every case can be rebuilt from its tokens alone."""
import numpy as np

# blue green red nir swir1 swir2 thermal (thermal in 0.1 K as the collection-1 product stores it)
REGIMES = {
    "A": (300, 500, 400, 3000, 1500, 700, 2950),    # forest
    "B": (900, 1100, 1300, 2300, 2900, 2300, 3020),  # bare / logged
    "C": (500, 800, 900, 2000, 2200, 1500, 3000),   # grass
    "G": (250, 450, 300, 4200, 1400, 600, 2940),    # dense green
}
AMP = (20, 30, 30, 300, 120, 60, 60)
QA = {"clear": 0, "water": 1, "shadow": 2, "snow": 3, "cloud": 4, "fill": 255}


def noise(date, band):
    x = (int(date) * 2654435761 + band * 40503 + 12345) & 0xFFFFFFFF
    x ^= x >> 15
    x = (x * 2246822519) & 0xFFFFFFFF
    x ^= x >> 13
    return (x % 2001 - 1000) / 1000.0


NOISE = (15, 15, 15, 40, 30, 20, 20)


def values(date, regime, amp=1.0, noise_scale=1.0):
    m = REGIMES[regime]
    ph = np.cos(2 * np.pi * (date % 365.25) / 365.25 - 3.4)
    return [int(round(m[b] + amp * AMP[b] * ph + noise_scale * NOISE[b] * noise(date, b))) for b in range(7)]


class Series:
    """Column arrays in the order the public functions take them."""

    def __init__(self):
        self.rows = []

    def add(self, date, regime="A", qa=0, vals=None, **kw):
        self.rows.append((int(date),) + tuple(vals if vals is not None else values(date, regime, **kw)) + (qa,))
        return self

    def arrays(self, dtype=np.int64):
        a = np.array(self.rows, dtype=dtype).reshape(len(self.rows), 9)
        # dates b g r n s1 s2 t qa
        return [np.ascontiguousarray(a[:, i]) for i in range(9)]

    def __len__(self):
        return len(self.rows)


# one token -> (regime or special values, qa)
def token_row(tok, date):
    """tokens: A B C G clear obs of the regime; lower-case c cloud, s shadow, w water(A), n snow(bright),
    f fill flag, o out-of-range clear, x spike (single clear outlier values)"""
    if tok in REGIMES:
        return (date,) + tuple(values(date, tok)) + (0,)
    if tok == "w":
        return (date,) + tuple(values(date, "A")) + (1,)
    if tok == "c":
        return (date, 5200, 5300, 5400, 5600, 4800, 4100, 2600, 4)
    if tok == "s":
        return (date, 120, 130, 110, 500, 300, 150, 2700, 2)
    if tok == "n":
        return (date, 6800, 6900, 6700, 6000, 900, 600, 2700, 3)
    if tok == "f":
        return (date, 0, 0, 0, 0, 0, 0, 0, 255)
    if tok == "o":
        return (date, 300, 500, 400, 12000, 1500, 700, 2950, 0)
    if tok == "x":
        return (date, 3000, 3200, 3300, 4500, 4300, 3800, 2900, 0)
    raise KeyError(tok)


# ways in which the observations of the regimes scatter: (seasonal amplitude, noise, trend per year in % of the
# level, date steps in days - cycled)
TEXTURES = {
    "plain": (1.0, 1.0, 0.0, (16,)),
    "level": (0.0, 0.0, 0.0, (16,)),          # constant values except for the regime "A", which keeps its noise
    "season": (2.5, 1.5, 0.0, (16,)),
    "trend": (1.0, 1.0, 4.0, (16,)),
    "dense": (1.0, 1.0, 0.0, (8, 8, 5, 3, 8, 16)),
    "sparse": (1.0, 1.0, 0.0, (16, 32, 48, 16)),
}


def texture_row(tok, date, tex, start):
    amp, noi, trend, _ = TEXTURES[tex]
    if tok not in REGIMES:
        return token_row(tok, date)
    if tex == "level" and tok == "A":
        amp, noi = 0.0, 1.0
    v = values(date, tok, amp, noi)
    if trend:
        v = [int(round(x + REGIMES[tok][b] * trend / 100 * (date - start) / 365.25)) for b, x in enumerate(v)]
    return (date,) + tuple(v) + (0,)


def textured(tokens, start=730000, tex="plain"):
    """as from_tokens, with the values and date steps of a texture"""
    s = Series()
    steps = TEXTURES[tex][3]
    d, k, dup = start, 0, False
    for t in tokens:
        if t == "=":
            dup = True
            continue
        if not dup and k:
            d += steps[(k - 1) % len(steps)]
        dup = False
        k += 1
        if t != "-":
            s.rows.append(texture_row(t, d, tex, start))
    return s


def from_tokens(tokens, start=730000, step=16):
    """tokens may contain '-' (acquisition missing) ; '=' repeats the previous date (duplicate)"""
    s = Series()
    d = start - step
    dup = False
    for t in tokens:
        if t == "=":
            dup = True
            continue
        if not dup:
            d += step
        dup = False
        if t == "-":
            continue
        s.rows.append(token_row(t, d))
    return s
