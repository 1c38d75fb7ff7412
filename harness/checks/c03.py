"""End-effector Jacobian derivatives and pseudo-inverse"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots on random trajectories (position, velocity, acceleration), including singular configurations; J_ee_dot and J_ee_ddot are compared "
        "with the power series of the Jacobian along the trajectory, J_ee_pinv with the damped formula in numpy. Distinct as in C02.")


def expect(rb, st):
    r = ref.Ref(rb, st["q"], st["dq"], st["ddq"])
    J = r.point_jac(r.T0[rb["n"] + 1])
    big = (1 + 20 * np.abs(st["q"]).max(1))
    def tol(s):
        T = np.ones((r.S, 6, r.n)) * (1e-11 * big * (s + 1e-3))[:, None, None]
        T[:, :3] *= r.L[:, None, None]
        return T
    J0 = r.jval(J)
    want = {"J_ee_dot": (r.jval(J, 1), tol(r.V)), "J_ee_ddot": (r.jval(J, 2), tol(r.V ** 2 + r.A))}
    Jt = np.swapaxes(J0, 1, 2)
    A = J0 @ Jt + 0.02 * np.eye(6)
    P = Jt @ np.linalg.inv(A)
    cond = np.array([np.linalg.cond(a) for a in A])
    pt = 1e-11 * cond * (1 + np.abs(P).max((1, 2))) * big * r.L
    want["J_ee_pinv"] = (P, np.ones(P.shape) * pt[:, None, None])
    return set(want), want


def run(ck):
    quick = ck.tier == "quick"
    N, S = (260, 10) if quick else (1800, 20)
    numeric.run_numeric(ck, None, N, S, lambda i: dict(nmax=6, zeros=True, big=12), expect, r"J_ee_.*", only=["q", "dq", "ddq"])
