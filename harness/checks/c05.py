"""Coriolis matrix"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots and states; C and C_std are compared with the Christoffel symbols of the reference mass matrix, M_dot-2C is checked to be skew, and "
        "M ddq + C dq + G is compared with D'Alembert's forces of the moving chain. Distinct as in C01.")


def expect(rb, st):
    r = ref.Ref(rb, st["q"], st["dq"], st["ddq"], st["d3q"], qdel=True, nt=3)
    n = rb["n"]
    M = r.mass()
    C = r.coriolis(M)[0]
    Ms = r.series(M, (n, n))
    big = 1 + 5 * np.abs(st["q"]).max(1)
    one = np.ones((1, n, n))
    tc = (1e-11 * r.sM * (r.V + 1e-3) * big)[:, None, None] * one
    tm = (1e-11 * r.sM * big)[:, None, None] * one
    want = {"C": (C, tc), "C_std": (C, tc), "M": (Ms[0], tm), "G": (r.gravity()[0][..., None], (1e-11 * (r.sG + 1e-6) * big)[:, None, None])}
    # motion: M ddq + C dq + G
    tau = r.newton_euler()
    tt = 1e-11 * big * (r.sM * (r.A + r.V ** 2 + 1e-3) + r.sG)
    return want, tau, tt, tc


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    want, tau, tt, tc = expect(rb, st)
    vals, info, res, text = numeric.eval_engine(exe, os.path.join(root, "c%d" % idx), rb, st, S, ["M", "C", "C_std", "G", "M_dot"], only=["q", "dq"])
    c = lib.Cmp()
    obs = numeric.compare(c, rb, st, S, vals, info, res, {"C", "C_std"}, {k: want[k] for k in ("C", "C_std")}, r"C(_std)?")
    n = rb["n"]
    for s in range(S):
        M, C, G, Md = (vals[k][s] for k in ("M", "C", "G", "M_dot"))
        if any(v is None for v in (M, C, G, Md)) or M.shape != (n, n) or C.shape != (n, n) or G.shape != (n, 1) or Md.shape != (n, n):
            c.bad("dimension", "M, C, G or M_dot of robot %s has no value or a wrong dimension" % rb["types"])
            continue
        N = Md - 2 * C
        c.num("skew", N + N.T, np.zeros((n, n)), 8 * tc[s], "M_dot - 2C + transpose of robot %s at state %d" % (rb["types"], s))
        got = M @ st["ddq"][s] + C @ st["dq"][s] + G[:, 0]
        c.num("newton-euler", got, tau[s], 4 * n * tt[s], "M ddq + C dq + G of robot %s at state %d" % (rb["types"], s))
        Cs = vals["C_std"][s]
        if Cs is not None and Cs.shape == C.shape:
            c.num("formulations", Cs, C, 2 * tc[s], "C_std against C of robot %s at state %d" % (rb["types"], s))
        obs += 3
    return dict(fail=c.fail, obs=obs, evals=S, sig=rob.signature(rb), sample=numeric.sample(rb, st, 3), worst=c.worst,
                files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    N, S = (240, 8) if quick else (1800, 16)
    eng = lib.Engine(ck.scratch)
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, dict(nmax=6, zeros=True, big=8)) for i in range(N)]))
