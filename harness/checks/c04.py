"""Mass matrix"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots with physically consistent, point-like, extreme and inconsistent inertias; the mass matrix is compared with the kinetic energy metric "
        "of the links (dual numbers), and checked for symmetry and, for consistent inertias, positive definiteness. Distinct as in C01.")


def expect(rb, st):
    r = ref.Ref(rb, st["q"], nt=1)
    n = rb["n"]
    M = r.series(r.mass(), (n, n))[0]
    tol = 1e-11 * r.sM * (1 + 5 * np.abs(st["q"]).max(1))
    return {"M"}, {"M": (M, tol[:, None, None] * np.ones((1, n, n)))}


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    names, want = expect(rb, st)
    vals, info, res, text = numeric.eval_engine(exe, os.path.join(root, "c%d" % idx), rb, st, S, ["M"], only=["q"])
    c = lib.Cmp()
    obs = numeric.compare(c, rb, st, S, vals, info, res, names, want, r"M")
    w, tol = want["M"]
    phys = all(d[0] > 0 for d in rb["dyn"]) and all(np.linalg.eigvalsh(ref.sym6(d[4:])).min() > 0 for d in rb["dyn"])
    npd = 0
    for s, M in enumerate(vals["M"]):
        if M is None or M.shape != w[s].shape:
            continue
        c.true("symmetric", np.abs(M - M.T).max() <= 2 * tol[s].max(), "M is not symmetric: %s" % M.tolist())
        if phys:
            e = np.linalg.eigvalsh((w[s] + w[s].T) / 2).min()
            if e > 20 * rb["n"] * tol[s].max():
                npd += 1
                c.true("positive", np.linalg.eigvalsh((M + M.T) / 2).min() > 0, "M is not positive definite: %s" % M.tolist())
            # kinetic energy of a few velocities
        v = st["dq"][s]
        c.num("energy", v @ M @ v, v @ w[s] @ v, tol[s].max() * (np.abs(v).sum() ** 2 + 1e-300), "dq' M dq (twice the kinetic energy)")
        obs += 3
    return dict(fail=c.fail, obs=obs, evals=S, sig=rob.signature(rb), sample=numeric.sample(rb, st, 3), worst=c.worst, count={"positive_definite_checked": npd},
                files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    N, S = (320, 8) if quick else (3000, 16)
    eng = lib.Engine(ck.scratch)
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, dict(nmax=6, zeros=True, big=9)) for i in range(N)]))
