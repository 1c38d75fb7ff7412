"""Gravity torque"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots with usual, arbitrary, absent, fixed, symbolic and partly symbolic gravity and any base orientation; G is compared with the gradient of the "
        "potential energy, then asked again for other symbolic gravity vectors (linearity) and other velocities (independence). Distinct as in C01.")


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    r = rob.rng_of("c06", seed, idx)
    cwd = os.path.join(root, "c%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    sc = lib.Script()
    sc.add("new", "r", "rob", conf)
    ii = sc.add("info", "r")
    sel = [i for i in range(3) if rb["symb"]["gravity"][i]]
    g0 = np.array(rb["gravity"] if rb["gravity"] is not None else [0., 0., 0.])
    gs = [g0]
    for k in range(2 if sel else 0):
        g = g0.copy()
        g[sel] = r.uniform(-12, 12, len(sel)) if k else 0.0
        gs.append(g)
    idxs = []
    for s in range(S):
        numeric.set_state(sc, "r", rb, st, s, ["q", "dq", "ddq"])
        for k, g in enumerate(gs):
            if sel:
                sc.add("set", "r", "par_gravity", lib.vec(g[sel]))
            idxs.append((s, k, sc.add("get", "r", "G")))
        sc.add("set", "r", "dq", lib.vec(-3 * st["dq"][s] + 1))
        sc.add("set", "r", "ddq", lib.vec(-3 * st["ddq"][s] + 1))
        idxs.append((s, len(gs) - 1, sc.add("get", "r", "G")))
    res = lib.run_script(exe, sc, cwd)
    info = res[ii][1] if res[ii][0] == "J" else None
    c = lib.Cmp()
    obs = 0
    if numeric.usable(c, res, info, rb):
        R = ref.Ref(rb, st["q"], nt=1)
        big = 1 + 5 * np.abs(st["q"]).max(1)
        d = np.array(rb["dyn"])
        sc0 = (np.abs(d[:, 0])[None] * (R.L[:, None] + np.abs(d[:, 1:4]).sum(1)[None])).sum(1)
        for s, k, i in idxs:
            w = R.gravity(gs[k])[0][s]
            tol = 1e-11 * big[s] * sc0[s] * (np.abs(gs[k]).sum() + 1e-6)
            c.num("G", res.val(i), w[:, None], tol, "G of robot %s, gravity %s, state %d" % (rb["types"], gs[k].tolist(), s))
            obs += 1
        f = {x[0]: x for x in info["funs"]}
        c.true("args", "G" in f and not set(f["G"][1]) & {"dq", "ddq", "d3q", "dqr", "ddqr"}, "G depends on velocities: %s" % (f.get("G"),))
        c.true("args", "G" in f and ("par_gravity" in f["G"][1]) == bool(sel), "G takes par_gravity exactly when a component is symbolic: %s" % (f.get("G"),))
    return dict(fail=c.fail, obs=obs, evals=len(idxs), sig=repr(rob.signature(rb)) + str(sel), sample=dict(gravity=gs[-1].tolist(), **numeric.sample(rb, st, 3)), worst=c.worst,
                count={"gravity_vectors": len(gs)}, files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    N, S = (320, 6) if quick else (3000, 12)
    eng = lib.Engine(ck.scratch)
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, dict(zeros=True, big=9, nmax=6, grav=[0, 1, 1, 2, 1][i % 5], base=[1, 1, 0, 2][i % 4])) for i in range(N)]))
