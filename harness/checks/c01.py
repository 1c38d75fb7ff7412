"""Forward kinematics"""
import os

import numpy as np

import gen
import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots (R/P/SEA mixes, special and generic DH tables, base and end-effector frames, symbolic masks) at special, generic and large "
        "joint vectors; every transform of the model is compared with composed elementary transforms and checked to be rigid. Some robots are also "
        "generated, compiled and asked through the class. Distinct: joint types, orders, first DH row and masks differ.")


def expect(rb, st):
    r = ref.Ref(rb, st["q"], nt=1)
    n = rb["n"]
    tol = 1e-11 * r.L * (1 + 20 * np.abs(st["q"]).max(1))
    want = {}
    for i in range(n + 1):
        want["T_%d" % i] = (bc(r.val(r.Ti[i]), r.S), tol)
    for i in range(n + 2):
        want["T_0_%d" % i] = (bc(r.val(r.T0[i]), r.S), tol)
    want["T_0_ee"] = want["T_0_%d" % (n + 1)]
    return set(want), want


def bc(v, S):
    return np.broadcast_to(v, (S, 4, 4))


def rigid(c, f, T, scale):
    if T is None or T.shape != (4, 4):
        return
    R = T[:3, :3]
    c.true("rigid:" + f, np.abs(R.T @ R - np.eye(3)).max() < 1e-9 and abs(np.linalg.det(R) - 1) < 1e-9 and (T[3] == [0, 0, 0, 1]).all(),
           "%s is not a rigid transform: %s" % (f, T.tolist()))


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    names, want = expect(rb, st)
    vals, info, res, text = numeric.eval_engine(exe, os.path.join(root, "c%d" % idx), rb, st, S, sorted(want), only=["q"])
    c = lib.Cmp()
    obs = numeric.compare(c, rb, st, S, vals, info, res, names, want, r"T_.*")
    for f in want:
        for v in vals[f]:
            rigid(c, f, v, 1)
            obs += 1
    return dict(fail=c.fail, obs=obs, evals=S, sig=rob.signature(rb), sample=numeric.sample(rb, st, 3), worst=c.worst,
                files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def gen_expect(rb, st, S):
    names, want = expect(rb, st)
    return want


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    N, S = (200, 8) if quick else (1500, 16)
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, dict(nmax=6, zeros=True, big=12)) for i in range(N)]))
    gen.numeric_gen(ck, eng, 5 if quick else 24, 8, gen_expect, nmax=3)
