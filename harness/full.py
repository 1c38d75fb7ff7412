"""expected value and tolerance of every function of a robot"""
import numpy as np

import ref
import robots as rob
from checks import c01, c02, c03, c04, c05, c07, c09, c10


def regressors(rb, st):
    n, S = rb["n"], len(st["q"])
    R = ref.Ref(rb, st["q"], st["dq"], qdel=True, nt=1)
    rM, rC, rG = R.regressor(st["dqr"], st["ddqr"])
    big = 1e-11 * (1 + 5 * np.abs(st["q"]).max(1))
    g = np.abs(rb["gravity"] if rb["gravity"] is not None else [0.0]).sum()
    lev = np.tile([2, 1, 1, 1, 0, 0, 0, 0, 0, 0], n)[None, None, :]
    Lp = R.L[:, None, None] ** lev
    ar, vr = np.abs(st["ddqr"]).sum(1), np.abs(st["dqr"]).sum(1)
    one = np.ones((S, n, 10 * n))
    tM = one * (big * (ar + 1e-3))[:, None, None] * Lp
    tC = one * (big * (R.V * vr + 1e-3))[:, None, None] * Lp
    tG = one * (big * (g + 1e-3) * R.L)[:, None, None]
    return {"reg_M": (rM, tM), "reg_C": (rC, tC), "reg_G": (rG, tG), "Yr": (rM + rC + rG, tM + tC + tG)}


def expect(rb, st):
    """names of all functions and {name: (values (S, r, c), tolerances)}; functions without a meaningful value are only in names"""
    names, want = set(), {}
    for m in (c01, c02, c03, c04, c07, c09, c10):
        a, b = m.expect(rb, st)
        names |= a
        want.update(b)
    w5 = c05.expect(rb, st)[0]
    want.update({k: w5[k] for k in ("C", "C_std", "G")})
    want.update(regressors(rb, st))
    return names | set(want), want


def merge(rb, vals):
    """robot with the values of some groups replaced: {group: flat values}"""
    for g, v in vals.items():
        rb = rob.with_values(rb, g, v)
    return rb


GROUPS = ["DH", "base", "ee", "gravity", "dyn", "Dl", "K", "D", "Dm", "Mm"]
ARG = {g: a for a, g in rob.PARAMS}


def groups(rb):
    """parameter groups the robot has"""
    out = ["DH", "base", "ee", "gravity", "dyn"]
    if rb["Dl_order"]:
        out.append("Dl")
    if rb["ELASTIC"] and rb["nej"]:
        out += [g for g, o in (("K", "K_order"), ("D", "D_order"), ("Dm", "Dm_order")) if rb[o]] + ["Mm"]
    return out


def draw_group(r, rb, g):
    n = rb["n"]
    size = len(rob.full_values(rb, g))
    if g == "dyn":
        return np.array([rob.inertia(r, int(r.integers(0, 3))) for _ in range(n)]).ravel()
    if g == "DH":
        return np.array([[rob.pick_len(r, 1), rob.pick_angle(r, 2), rob.pick_len(r, 1), rob.pick_angle(r, 2)] for _ in range(n)]).ravel()
    if g == "gravity":
        return r.uniform(-12, 12, 3)
    if g in ("base", "ee"):
        return np.concatenate([r.uniform(-1, 1, 3), [rob.pick_angle(r, 2) for _ in range(3)]])
    return r.uniform(-2, 4, size)
