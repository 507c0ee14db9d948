"""The C++ reference model of COLD (model/cold_model.cpp): built on demand, called through ctypes."""
import ctypes
import fcntl
import hashlib
import os
import pathlib
import subprocess

import numpy as np

from .build import CACHE, VERIF

REC = np.dtype([("t_start", "i4"), ("t_end", "i4"), ("t_break", "i4"), ("num_obs", "i4"), ("category", "i4"),
                ("change_prob", "i4"), ("coefs", "f4", (7, 8)), ("rmse", "f4", 7), ("magnitude", "f4", 7)])
STAT = np.dtype([("margin", "f8"), ("fits", "i8"), ("masks", "i8"), ("removed", "i8"), ("lookback", "i8"), ("refits", "i8"),
                 ("slides", "i8"), ("breaks", "i8")])
_lib = None


def load():
    global _lib
    if _lib is None:
        src = VERIF / "model" / "cold_model.cpp"
        CACHE.mkdir(exist_ok=True)
        so = CACHE / ("model-%s.so" % hashlib.sha256(src.read_bytes()).hexdigest()[:16])
        with open(CACHE / "lock-model", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not so.exists():
                tmp = str(so) + ".tmp"
                subprocess.run(["g++", "-O2", "-ffp-contract=off", "-fPIC", "-shared", "-o", tmp, str(src), "-lgsl", "-lgslcblas"],
                               check=True)
                os.rename(tmp, so)
        _lib = ctypes.CDLL(str(so))
        assert _lib.rec_size() == REC.itemsize
    return _lib


def _p(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def _rows(arrays):
    return np.ascontiguousarray(np.stack([np.asarray(a, dtype=np.int64) for a in arrays], axis=1))


def cold(arrays, conse=6, t_cg=15.0863, b_c2=False, gap_days=365.25, cm=None):
    """-> (records | None when the capacity is exceeded, stats, cm dict | None); cm = (interval, start, n)"""
    rows = _rows(arrays)
    out = np.zeros(48, REC)
    st = np.zeros(1, STAT)
    iv, start, n = cm or (60, 0, 0)
    v = np.full(max(n, 1), -9999, np.int16)
    d = np.full(max(n, 1), -9999, np.int16)
    tie = np.zeros(max(n, 1), np.uint8)
    r = load().model_cold(_p(rows), len(rows), conse, ctypes.c_double(t_cg), int(b_c2), ctypes.c_double(gap_days), int(cm is not None),
                          iv, start, n, _p(v), _p(d), _p(tie), _p(out), _p(st))
    return (None if r < 0 else out[:r].copy()), st[0], (v, d, tie)


def rebuild(arrays, breaks, conse=6, b_c2=False):
    rows = _rows(arrays)
    br = np.ascontiguousarray(np.asarray(breaks, np.int64))
    out = np.zeros(48, REC)
    st = np.zeros(1, STAT)
    r = load().model_rebuild(_p(rows), len(rows), _p(br), len(br), conse, int(b_c2), _p(out), _p(st))
    return (None if r < 0 else out[:r].copy()), st[0]


def predict(coefs, date):
    """value the harmonic model with these coefficients has on a date (float64)"""
    w = np.float32(2 * np.pi / 365.25)
    x = np.float32(date)
    c = np.asarray(coefs, float)
    ang = float(w * x)
    return (c[0] + c[1] * date / 10000 + c[2] * np.cos(ang) + c[3] * np.sin(ang) + c[4] * np.cos(2 * ang) + c[5] * np.sin(2 * ang)
            + c[6] * np.cos(3 * ang) + c[7] * np.sin(3 * ang))


def compare(got, want, tol=1.0, rebuilt=False):
    """list of differences between records of the implementation and of the model.  tol scales the
    numeric tolerances, which cover float rounding only.  Segments of a reconstruction may be too short to
    determine their coefficients: there only the fitted values and what is derived from them are compared."""
    if len(got) != len(want):
        return [("records", len(got), len(want))]
    diff = []
    for i, (g, w) in enumerate(zip(got, want)):
        for f in ("t_start", "t_end", "t_break", "num_obs", "category", "change_prob"):
            if int(g[f]) != int(w[f]):
                diff.append((i, f, int(g[f]), int(w[f])))
        a, b = np.asarray(g["coefs"], float), np.asarray(w["coefs"], float)
        # a fallback fit uses few, unevenly spread observations: its descent stops further from the optimum
        loose = 0.1 if int(w["category"]) in (44, 54) else 0.03
        short = rebuilt and int(w["t_end"]) - int(w["t_start"]) < 365
        for band in range(7):
            for d in (int(w["t_start"]), (int(w["t_start"]) + int(w["t_end"])) // 2, int(w["t_end"])):
                x, y = predict(a[band], d), predict(b[band], d)
                if not abs(x - y) <= tol * (0.5 + 2e-3 * abs(y) + loose * abs(float(w["rmse"][band]))):
                    diff.append((i, "fit", band, d, x, y))
            lim = tol * (0.5 + 0.01 * np.abs(b[band, 2:]) + loose * abs(float(w["rmse"][band])))
            if not short and not (np.abs(a[band, 2:] - b[band, 2:]) <= lim).all():
                diff.append((i, "coefs", band, a[band].tolist(), b[band].tolist()))
        r, s = np.asarray(g["rmse"], float), np.asarray(w["rmse"], float)
        ok = np.isnan(s) | (np.abs(r - s) <= tol * (0.2 + 0.01 * s))
        if not ok.all():
            diff.append((i, "rmse", r.tolist(), s.tolist()))
        m, n = np.asarray(g["magnitude"], float), np.asarray(w["magnitude"], float)
        lim = tol * (1.0 + 0.005 * np.abs(n))
        if rebuilt:                     # the change is measured against an extrapolation
            lim = lim + ((0.05 * np.abs(n) + s) if short else 0.1 * s)
        if not (np.abs(m - n) <= lim).all():
            diff.append((i, "magnitude", m.tolist(), n.tolist()))
    return diff
