"""Reference model of one S-CCD monitoring step: the state after feeding one more usable observation.

Written from the description of the algorithm (state-space model with level, slope and two harmonics; a break when the
whole window of `conse` observations deviates and does so in one direction; single strong outliers are skipped; otherwise
the model absorbs the first observation of the window); double precision except where the state itself is single."""
import math

import numpy as np

LAUNCH = 723742
W = 2 * math.pi / 365.25
T = np.zeros((6, 6))
T[0, 0] = T[0, 1] = T[1, 1] = 1
for _h in (1, 2):
    c, s = math.cos(W * _h), math.sin(W * _h)
    T[2 * _h, 2 * _h] = T[2 * _h + 1, 2 * _h + 1] = c
    T[2 * _h, 2 * _h + 1], T[2 * _h + 1, 2 * _h] = s, -s
Q = np.diag([0.1, 0.1 / 1e6, 0.1, 0.1, 0.1, 0.1])
Z = np.array([1.0, 0, 1, 0, 1, 0])
T_MAX = 25.7448
MAXS = 32767
_pow = {}


def missing(P, n):
    """n days without observation: P -> T^n P T^n' + sum Q"""
    if n not in _pow:
        A, S = np.eye(6), np.zeros((6, 6))
        for _ in range(n):
            A, S = T @ A, T @ S @ T.T + Q
        _pow[n] = A, S
    A, S = _pow[n]
    return A @ P @ A.T + S


def predict(cft, d):
    return (cft[:, 0] + cft[:, 1] * d / 10000.0 + cft[:, 2] * math.cos(W * d) + cft[:, 3] * math.sin(W * d)
            + cft[:, 4] * math.cos(2 * W * d) + cft[:, 5] * math.sin(2 * W * d))


def to_state(cft, d):
    a = np.empty((6, 6))
    a[:, 0] = cft[:, 0] + d * cft[:, 1] / 10000.0
    a[:, 1] = cft[:, 1] / 10000.0
    for h in (1, 2):
        c, s = math.cos(h * W * d), math.sin(h * W * d)
        a[:, 2 * h] = cft[:, 2 * h] * c + cft[:, 2 * h + 1] * s
        a[:, 2 * h + 1] = -cft[:, 2 * h] * s + cft[:, 2 * h + 1] * c
    return a


def to_coefs(a, d):
    f = np.empty((6, 6))
    f[:, 0] = a[:, 0] - a[:, 1] * d
    f[:, 1] = a[:, 1] * 10000.0
    for h in (1, 2):
        c, s = math.cos(h * W * d), math.sin(h * W * d)
        f[:, 2 * h] = c * a[:, 2 * h] - s * a[:, 2 * h + 1]
        f[:, 2 * h + 1] = c * a[:, 2 * h + 1] + s * a[:, 2 * h]
    return f.astype(np.float32).astype(float)


def absorb(cft, P, H, y, d, gap):
    """regular filter step for the observation y (6 bands) at day d, the next one being gap days later"""
    a = to_state(cft, d)
    K = P @ Z
    F = K @ Z + H
    v = y - a @ Z
    a = a + K * (v / F)[:, None]
    P = P - K[:, :, None] * K[:, None, :] / F[:, None, None]
    P = missing(P, 1)
    a = a @ T.T
    return to_coefs(a, d + 1), missing(P, gap - 1) if gap > 1 else P, v


def angle(V):
    """V: (k, 5): mean angle between successive difference vectors, degrees"""
    if len(V) < 2:
        return 0.0
    n = np.linalg.norm(V, axis=1)
    c = np.clip((V[:-1] * V[1:]).sum(1) / (n[:-1] * n[1:]), -1, 1)
    return float(np.degrees(np.arccos(c)).mean())


class Step:
    """outcome of the step: kind 'break' | 'noise' | 'regular', the new fields and how close the decisions were"""


def step(x, min_rmse, mode, conse, obs, t_cg=15.0863, gate=9.236, pred_tcg=9.236):
    """x: nrt_model record; obs: (date, 6 values)"""
    R = Step()
    R.margin = 9.0

    def above(v, thr):
        R.margin = min(R.margin, abs(v - thr) / thr)
        return v > thr
    cft = x["nrt_coefs"].astype(float)
    P = x["covariance"].astype(float).reshape(6, 6, 6)
    # only the upper triangle is maintained
    iu = np.triu_indices(6, 1)
    P[:, iu[1], iu[0]] = P[:, iu[0], iu[1]]
    H = x["H"].astype(float)
    D = (x["obs_date_since1982"][:conse].astype(int) + LAUNCH).tolist() + [obs[0]]
    Y = np.concatenate([x["obs"][:, :conse].astype(float), np.array(obs[1:7], float)[:, None]], 1)
    ssum = x["rmse_sum"].astype(np.int64)
    n = int(x["num_obs"])
    mr = np.asarray(min_rmse, float)

    def scale(ss, nn):
        return np.maximum(mr, np.sqrt(ss / float(nn - 6)))
    sc = scale(ssum, n)
    dif = np.array([Y[:, k] - predict(cft, D[k]) for k in range(conse)])
    V = dif[:, 1:] / sc[1:]
    N = (V ** 2).sum(1)
    R.broke = False
    if all(above(v, t_cg) for v in N):          # evaluated in order, stopping at the first regular one
        ang = angle(V)
        R.margin = min(R.margin, abs(ang - 45) / 45)
        R.broke = ang <= 45
    R.conse_last, R.norm_cm, R.cm_angle = 0, -9999, -9999
    if R.broke:
        R.kind = "break"
        R.rec = dict(t_start=int(x["t_start_since1982"]) + LAUNCH, t_break=D[0], num_obs=n, coefs=cft, rmse=np.sqrt(ssum / float(n - 6)),
                     magnitude=np.median(dif, axis=0))
        R.cft, R.P, R.ssum, R.n, R.dates, R.obs = cft, P, ssum, n, D[:conse], Y[:, :conse]
        R.queue = (D, Y)
        R.mode = 12 if mode // 10 == 1 else 5
        R.conse_last, R.norm_cm, R.cm_angle = conse, min(MAXS, N.min() * 100), min(MAXS, ang * 100)
        return R
    if above(N[0], T_MAX):
        R.kind = "noise"
        P = missing(P, D[1] - D[0])
    else:
        R.kind = "regular"
        cft, P, v = absorb(cft, P, H, Y[:, 0], D[0], D[1] - D[0])
        tot = ssum + v * v
        R.ss_near = np.abs(tot - np.round(tot)) < 1e-3 * np.maximum(1, np.abs(v))
        ssum = np.floor(tot).astype(np.int64)
        n += 1
    R.cft, R.P, R.ssum, R.n, R.dates, R.obs = cft, P, ssum, n, D[1:], Y[:, 1:]
    sc = scale(ssum, n)
    V = np.array([(Y[1:, k] - predict(cft, D[k])[1:]) / sc[1:] for k in range(conse, 0, -1)])
    N = (V ** 2).sum(1)
    R.mode = mode
    if mode // 10 == 1 and conse > 1:
        if sum(not above(v, pred_tcg) for v in N) / conse > 0.5:
            R.mode = mode - 10
    k = 0
    while k < conse and above(N[k], gate):
        k += 1
    if k:
        R.conse_last, R.norm_cm, R.cm_angle = k, min(MAXS, N[:k].min() * 100), min(MAXS, angle(V[:k]) * 100)
    return R


def compare(R, p, prev):
    """differences between the model's outcome and the state p the code returned"""
    f = []

    def near(a, b, rel, abs_):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return bool((np.abs(a - b) <= abs_ + rel * np.abs(b)).all())
    if p.nrt_mode != R.mode:
        f.append(("mode", p.nrt_mode, R.mode))
    want_recs = len(prev.rec_cg) + R.broke
    if len(p.rec_cg) != want_recs:
        f.append(("segments", len(p.rec_cg), want_recs))
        return f
    if R.broke:
        r = p.rec_cg[-1]
        for k in ("t_start", "t_break", "num_obs"):
            if int(r[k]) != R.rec[k]:
                f.append((k, int(r[k]), R.rec[k]))
        for k, rel, ab in (("coefs", 1e-5, 1e-3), ("rmse", 1e-5, 1e-3), ("magnitude", 1e-4, 0.1)):
            if not near(r[k], R.rec[k], rel, ab):
                f.append((k, r[k].tolist(), np.asarray(R.rec[k]).tolist()))
        q = p.nrt_queue
        if [int(d) + LAUNCH for d in q["clrx_since1982"]] != R.queue[0] or (q["clry"].T != R.queue[1]).any():
            f.append(("queue", q["clrx_since1982"].tolist()[:4], R.queue[0][:4]))
    if len(p.nrt_model) == 0:
        if R.mode % 10 not in (2,):
            f.append(("no-model", p.nrt_mode))
        return f
    x = p.nrt_model[0]
    c = len(R.dates)
    if (x["obs_date_since1982"][:c].astype(int) + LAUNCH).tolist() != list(R.dates) or (x["obs"][:, :c] != R.obs).any():
        f.append(("window", x["obs_date_since1982"].tolist(), list(R.dates)))
    if int(x["num_obs"]) != R.n:
        f.append(("num_obs", int(x["num_obs"]), R.n))
    if int(x["t_start_since1982"]) != int(prev.nrt_model[0]["t_start_since1982"]):
        f.append(("t_start", int(x["t_start_since1982"])))
    if (np.abs(x["rmse_sum"].astype(np.int64) - R.ssum) > 1 + R.ssum * 1e-7).any():
        f.append(("rmse_sum", x["rmse_sum"].tolist(), R.ssum.tolist()))
    if (x["H"] != prev.nrt_model[0]["H"]).any():
        f.append(("H", x["H"].tolist()))
    # coefficients: compared as the curve they describe (slope and level are huge and cancel)
    got = x["nrt_coefs"].astype(float)
    for d in (R.dates[0], R.dates[0] + 91, R.dates[0] + 183, R.dates[-1] + 365):
        a, b = predict(got, d), predict(R.cft, d)
        if not near(a, b, 1e-4, 0.3):
            f.append(("coefs", d, a.tolist(), b.tolist()))
            break
    iu = np.triu_indices(6)
    a, b = x["covariance"].reshape(6, 6, 6)[:, iu[0], iu[1]], R.P[:, iu[0], iu[1]]
    dg = np.sqrt(np.abs(R.P[:, range(6), range(6)]))
    tol = 1e-3 * dg[:, iu[0]] * dg[:, iu[1]] + 1e-12
    if (np.abs(a - b) > tol).any():
        f.append(("covariance", float((np.abs(a - b) / tol).max())))
    if int(x["conse_last"]) != R.conse_last:
        f.append(("conse_last", int(x["conse_last"]), R.conse_last))
    elif abs(int(x["norm_cm"]) - R.norm_cm) > 2 + 2e-3 * abs(R.norm_cm):
        f.append(("norm_cm", int(x["norm_cm"]), R.norm_cm))
    elif abs(int(x["cm_angle"]) - R.cm_angle) > (30 if abs(R.cm_angle) < 300 else 5 + 2e-3 * abs(R.cm_angle)):
        f.append(("cm_angle", int(x["cm_angle"]), R.cm_angle))
    return f
