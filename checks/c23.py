"""C23: quality decoding of every possible value."""
import itertools

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all quality values of every product, executed on the real decoders against a per-value priority rule"
NOTE = """All 65,536 values of the 16-bit products (as every integer type the files come in) and all 256 values of
the 8-bit product, as flat vectors and as images of several shapes, orders and memory layouts."""
RULE = """A case is one (decoder, value chunk, element type, image shape/layout); each value's class is compared with
the priority rule fill > cloud > shadow > snow > water > clear on its flag bits.  Distinct by decoded chunk."""

FILL, CLEAR, WATER, SHADOW, SNOW, CLOUD = 255, 0, 1, 2, 3, 4
# documented flag bits: {class: bits}; later entries win
BITS = {
    "c1": [(CLEAR, (1,)), (WATER, (2,)), (SNOW, (4,)), (SHADOW, (3,)), (CLOUD, (5,)), (FILL, (0,))],
    "c2": [(CLEAR, (6,)), (WATER, (7,)), (SNOW, (5,)), (SHADOW, (4,)), (CLOUD, (3, 1)), (FILL, (0,))],
    "hls": [(WATER, (5,)), (SNOW, (4,)), (SHADOW, (3,)), (CLOUD, (1, 2))],
}
DEFAULT = {"c1": FILL, "c2": FILL, "hls": CLEAR}


def rule(product, v):
    if product == "hls" and v == 255:
        return FILL
    c = DEFAULT[product]
    for cls, bits in BITS[product]:
        if any(v >> b & 1 for b in bits):
            c = cls
    return c


def one(case):
    product, lo, hi, dtype, shape, layout = case
    import numpy as np
    from pycold.imagetool import prepare_ard as pa
    f = {"c1": pa.qabitval_array, "c2": pa.qabitval_array_c2, "hls": pa.qabitval_array_HLS}[product]
    a = np.arange(lo, hi, dtype=np.int64)
    if layout == "reversed":
        a = a[::-1]
    a = a.astype(dtype).reshape(shape)
    if layout == "fortran":
        a = np.asfortranarray(a)
    elif layout == "strided":
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    keep = a.copy()
    out = np.asarray(f(a))
    fails = []
    if out.shape != a.shape:
        return [("shape", dict(want=a.shape, got=out.shape))], case
    if not (a == keep).all():
        fails.append(("input-modified", ""))
    if not (np.asarray(f(a)) == out).all():
        fails.append(("not-deterministic", ""))
    want = np.array([rule(product, int(v)) for v in a.ravel()]).reshape(a.shape)
    if not (out == want).all():
        i = tuple(np.argwhere(out != want)[0])
        fails.append(("class", dict(value=int(a[i]), bits=bin(int(a[i])), want=int(want[i]), got=int(out[i]))))
    if not (out.astype(np.short) == want).all():
        fails.append(("short", ""))
    return fails, (product, lo, dtype, str(shape), layout)


def run(ctx):
    cases = []
    n = 2048
    for p in ("c1", "c2"):
        for lo in range(0, 65536, n):
            cases.append((p, lo, lo + n, "uint16", (n,), "plain"))
            cases.append((p, lo, lo + n, "int32", (32, n // 32), "plain"))
            cases.append((p, lo, lo + n, "uint16", (n // 8, 8), "fortran"))
            cases.append((p, lo, lo + n, "uint16", (8, n // 8), "reversed"))
            cases.append((p, lo, lo + n, "uint16", (n,), "strided"))
            if not ctx.quick:
                cases.append((p, lo, lo + n, "int64", (n,), "plain"))
                cases.append((p, lo, lo + n, "uint32", (1, n), "strided"))
        for lo in range(0, 32768, n):
            cases.append((p, lo, lo + n, "int16", (n,), "plain"))
    for dt in ("uint8", "uint16", "int16", "int64"):
        for shape in ((256,), (16, 16), (1, 256), (256, 1), (2, 128)):
            for lay in ("plain", "fortran", "reversed", "strided"):
                cases.append(("hls", 0, 256, dt, shape, lay))
    for p, dt in (("c1", "uint16"), ("c2", "uint16"), ("hls", "uint8")):
        for v in range(256):
            cases.append((p, v, v + 1, dt, (1, 1), "plain"))
    run_cases(ctx, "values", one, cases, describe=lambda c: dict(zip(("product", "lo", "hi", "dtype", "shape", "layout"), c)))
    ctx.coverage["exhaustive"] = True
