"""Calls of the public pixel functions, with outcomes in comparable form."""
import hashlib

import numpy as np


def _mod():
    import pycold
    return pycold


def call(fn, *a, **k):
    """-> ('ok', value) | ('none', text): no records | ('error', type, text)"""
    try:
        return ("ok", fn(*a, **k))
    except RuntimeError as e:
        return ("error", "RuntimeError", str(e))
    except ValueError as e:
        return ("error", "ValueError", str(e))
    except TypeError as e:
        return ("error", "TypeError", str(e))
    except Exception as e:
        if type(e) is Exception and "no change records" in str(e):
            return ("none", str(e))
        return ("error", type(e).__name__, str(e))


def cold(arrays, **k):
    return call(_mod().cold_detect, *arrays, **k)


def obcold(arrays, breaks, **k):
    return call(_mod().obcold_reconstruct, *arrays, breaks, **k)


def sccd(arrays, **k):
    return call(_mod().sccd_detect, *arrays, **k)


def update(pack, arrays, **k):
    return call(_mod().sccd_update, pack, *arrays, **k)


def freeze(x):
    """bytes that determine a result completely (bit for bit)"""
    if isinstance(x, np.ndarray):
        return b"A" + str(x.dtype.descr if x.dtype.names else x.dtype.str).encode() + str(x.shape).encode() + rec_bytes(x)
    if isinstance(x, (tuple, list)):
        return b"T" + type(x).__name__.encode() + b"(" + b",".join(freeze(v) for v in x) + b")"
    return repr(x).encode()


def rec_bytes(x):
    """field by field, so that padding bytes do not count"""
    if x.dtype.names:
        return b"|".join(np.ascontiguousarray(x[n]).tobytes() for n in x.dtype.names)
    return np.ascontiguousarray(x).tobytes()


def digest(x):
    return hashlib.sha1(freeze(x)).hexdigest()[:12]


def tail_arrays(arrays, lo, hi=None):
    return [np.ascontiguousarray(a[lo:hi]) for a in arrays]


def cold_summary(r):
    if r[0] != "ok":
        return r
    return [tuple(int(x[f]) for f in ("t_start", "t_end", "t_break", "num_obs", "category", "change_prob")) for x in r[1]]
