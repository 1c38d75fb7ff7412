"""Geometric Jacobians"""
import numpy as np

import gen
import lib
import numeric
import ref

RULE = ("Random robots at special, generic and large joint vectors; every frame, end-effector and centre-of-mass Jacobian of the model is compared with the "
        "derivative (dual numbers) of the composed transforms. Distinct: joint types, orders, first DH row and masks differ.")


def kin_tol(r, st, eps=1e-11):
    t = eps * (1 + 20 * np.abs(st["q"]).max(1))
    T = np.ones((r.S, 6, r.n)) * t[:, None, None]
    T[:, :3] *= r.L[:, None, None]
    return T


def expect(rb, st):
    r = ref.Ref(rb, st["q"], nt=1)
    n = rb["n"]
    tol = kin_tol(r, st)
    want = {}
    for i in range(n):
        want["J_%d" % (i + 1)] = (r.jval(r.point_jac(r.T0[i + 1])), tol)
        d = rb["dyn"][i]
        want["J_cm_%d" % (i + 1)] = (r.jval(r.point_jac(r.T0[i + 1], d[1:4])), tol * (1 + np.abs(d[1:4]).sum()))
    ee = (r.jval(r.point_jac(r.T0[n + 1])), tol)
    want["J_%d" % (n + 1)] = want["J_ee"] = ee
    return set(want), want


def run(ck):
    quick = ck.tier == "quick"
    N, S = (260, 8) if quick else (2500, 16)
    numeric.run_numeric(ck, None, N, S, lambda i: dict(nmax=6, zeros=True, big=12), expect, r"J_(\d+|ee|cm_.*)", only=["q"])
