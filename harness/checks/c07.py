"""Time derivatives of M, C, G"""
import numpy as np

import numeric
import ref

RULE = ("Random robots on random trajectories (position to jerk); the six derivative functions are compared with the power series of the reference M, C and G "
        "along the trajectory. Distinct as in C01.")


def expect(rb, st):
    r = ref.Ref(rb, st["q"], st["dq"], st["ddq"], st["d3q"], qdel=True)
    n = rb["n"]
    M = r.mass()
    Ms = r.series(M, (n, n))
    C = r.coriolis(M)
    G = r.gravity()
    V, A, B = r.V, r.A, r.B
    big = 1e-11 * (1 + 5 * np.abs(st["q"]).max(1))
    one = np.ones((1, n, n))
    def t(x):
        return (big * x)[:, None, None] * one
    o1 = 1e-3
    want = {
        "M_dot": (Ms[1], t(r.sM * (V + o1))),
        "M_ddot": (Ms[2], t(r.sM * (V ** 2 + A + o1))),
        "C_dot": (C[1], t(r.sM * (V ** 2 + A + o1))),
        "C_ddot": (C[2], t(r.sM * (V ** 3 + 3 * V * A + B + o1))),
        "G_dot": (G[1][..., None], t(r.sG * (V + o1))[:, :, :1]),
        "G_ddot": (G[2][..., None], t(r.sG * (V ** 2 + A + o1))[:, :, :1]),
    }
    return set(want), want


def run(ck):
    quick = ck.tier == "quick"
    N, S = (190, 8) if quick else (1200, 16)
    numeric.run_numeric(ck, None, N, S, lambda i: dict(zeros=True, big=8, nmax=5 if quick else 6, inert=[0, 0, 2, 3, 1][i % 5]), expect, r"[MCG]_d*dot", only=["q", "dq", "ddq", "d3q"])
