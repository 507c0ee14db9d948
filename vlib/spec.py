"""What the documentation says about observations, written independently of the C code."""
import numpy as np


def in_range(row, b_c2):
    """row: (date, blue .. swir2, thermal, qa); surface reflectance and thermal within the documented range"""
    d, b, g, r, n, s1, s2, t, qa = (int(v) for v in row)
    if not (-200 < b < 10000) or not all(0 < v < 10000 for v in (g, r, n, s1, s2)):
        return False
    if not b_c2 and t != 0 and not (-9320 < t * 10 - 27320 < 7070):
        return False
    return qa != 255


def rows(arrays):
    return list(zip(*[a.tolist() for a in arrays]))


def kind(arrays, b_c2):
    qa = arrays[8]
    clear = int(np.sum(qa < 2))
    if clear >= 24:
        return "standard"
    snow = int(np.sum(qa == 3))
    return "snow" if snow > 0.75 * (snow + clear + 0.01) else "insufficient"


def usable_index(arrays, b_c2):
    """indices of the clear/water, in-range, first-of-its-date observations"""
    out, last = [], None
    for i, row in enumerate(rows(arrays)):
        if row[8] in (0, 1) and in_range(row, b_c2) and row[0] != last:
            out.append(i)
            last = row[0]
    return out


def usable_dates(arrays, b_c2):
    d = arrays[0]
    return [int(d[i]) for i in usable_index(arrays, b_c2)]
