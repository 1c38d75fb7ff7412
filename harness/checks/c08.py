"""Dynamic regressors"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots, states and references; every column of reg_M, reg_C, reg_G and Yr is compared with the dynamics of one unit regressor parameter, and the "
        "products with the model's own regressor parameters with M ddqr + C dqr + G of the model, before and after the inertial parameters change. Distinct as in C01.")


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    r = rob.rng_of("c08", seed, idx)
    n = rb["n"]
    cwd = os.path.join(root, "c%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    sc = lib.Script()
    FN = ["Yr", "reg_M", "reg_C", "reg_G"]
    company = numeric.Company(sc, cwd, rb, st, S, text, FN, ["q", "dq", "dqr", "ddqr"])
    company(-1)
    sc.add("new", "r", "rob", conf)
    company(0)
    ii = sc.add("info", "r")
    ip = sc.add("getreg", "r")
    ix = []
    for s in range(S):
        if s:
            company(s)
        numeric.set_state(sc, "r", rb, st, s, ["q", "dq", "dqr", "ddqr"])
        ix.append([sc.add("get", "r", f) for f in FN + ["M", "C", "G"]])
    # other inertial parameters: same regressors
    d2 = [x for k in range(n) for x in rob.inertia(r, 0)]
    iset = sc.add("setn", "r", "par_DYN", lib.vec(d2))
    ip2 = sc.add("getreg", "r")
    ix2 = [sc.add("get", "r", f) for f in FN + ["M", "C", "G"]]
    res = lib.run_script(exe, sc, cwd)
    info = res[ii][1] if res[ii][0] == "J" else None
    c = lib.Cmp()
    obs = 0
    if numeric.usable(c, res, info, rb):
        R = ref.Ref(rb, st["q"], st["dq"], qdel=True, nt=1)
        rM, rC, rG = R.regressor(st["dqr"], st["ddqr"])
        big = 1e-11 * (1 + 5 * np.abs(st["q"]).max(1))
        g = np.abs(rb["gravity"] if rb["gravity"] is not None else [0.0]).sum()
        lev = np.tile([2, 1, 1, 1, 0, 0, 0, 0, 0, 0], n)[None, None, :]
        Lp = R.L[:, None, None] ** lev
        ar, vr = np.abs(st["ddqr"]).sum(1), np.abs(st["dqr"]).sum(1)
        one = np.ones((S, n, 10 * n))
        tM = one * (big * (ar + 1e-3))[:, None, None] * Lp
        tC = one * (big * (R.V * vr + 1e-3))[:, None, None] * Lp
        tG = one * (big * (g + 1e-3) * R.L)[:, None, None]
        want = {"reg_M": (rM, tM), "reg_C": (rC, tC), "reg_G": (rG, tG), "Yr": (rM + rC + rG, tM + tC + tG)}
        fn = {x[0]: x for x in info["funs"]}
        for f in FN:
            c.true("exists", f in fn and not set(fn[f][1]) & {"par_DYN", "par_REG"}, "%s is missing or depends on the inertial parameters: %s" % (f, fn.get(f)))
        lab = "%s of robot %s" % ("%s", "/".join(rb["types"]))
        p0 = res.val(ip)
        pd = ref.dyn_to_reg(rob.full_values(rb, "dyn"))
        for s in range(S):
            v = [res.val(i) for i in ix[s]]
            for k, f in enumerate(FN):
                w, t = want[f]
                c.num(f, v[k], w[s], t[s], lab % f + " at state %d" % s)
                obs += 1
            products(c, v, p0, st["dqr"][s], st["ddqr"][s], [x[s] for x in (tM, tC, tG)], n, "at state %d of %s" % (s, rb["types"]))
        c.eq("set", res[iset], ("OK", 1), "set_par_DYN of %s" % rb["types"])
        v2 = [res.val(i) for i in ix2]
        v = [res.val(i) for i in ix[-1]]
        for k, f in enumerate(FN):
            if v[k] is not None:
                c.same("independent:" + f, v2[k], v[k], lab % f + " after the inertial parameters changed")
        if v2[1] is not None and fn.get("M"):
            # the parameters in use after the change: symbolic entries new, the others configured
            m = np.array(rb["symb"]["dyn"], bool)
            eff = np.where(m, d2, rob.full_values(rb, "dyn"))
            w = ref.dyn_to_reg(eff)
            p2 = res.val(ip2)
            c.num("parREG", p2[:, 0] if p2 is not None else None, w, 1e-9 * (np.abs(w).max() + 1), "regressor parameters after set_par_DYN of %s" % rb["types"])
            if p2 is not None:
                products(c, v2, p2, st["dqr"][-1], st["ddqr"][-1], [x[-1] for x in (tM, tC, tG)], n, "after the inertial parameters of %s changed" % rb["types"])
        obs += 10
    return dict(fail=c.fail, obs=obs, evals=S + 1, sig=rob.signature(rb), sample=numeric.sample(rb, st, 3), worst=c.worst,
                files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def products(c, v, p, dqr, ddqr, tol, n, where):
    Yr, rm, rc, rg, M, C, G = v
    if p is None or any(x is None for x in v) or p.shape != (10 * n, 1) or M.shape != (n, n) or C.shape != (n, n) or G.shape != (n, 1) or any(x.shape != (n, 10 * n) for x in (Yr, rm, rc, rg)):
        c.bad("dimension", "missing value or wrong dimension " + where)
        return
    p = p[:, 0]
    t = [4 * (x @ (np.abs(p) + 1e-12)) for x in tol]
    a, b, g = M @ ddqr, C @ dqr, G[:, 0]
    # reference parameters and model terms are related through the link inertias about the centre of mass: scale includes m*c^2
    c.num("reg_M*p", rm @ p, a, t[0] * 4, "reg_M p against M ddqr " + where)
    c.num("reg_C*p", rc @ p, b, t[1] * 4, "reg_C p against C dqr " + where)
    c.num("reg_G*p", rg @ p, g, t[2] * 4, "reg_G p against G " + where)
    c.num("Yr*p", Yr @ p, a + b + g, sum(t) * 4, "Yr p against M ddqr + C dqr + G " + where)


def run(ck):
    quick = ck.tier == "quick"
    N, S = (130, 5) if quick else (1000, 10)
    eng = lib.Engine(ck.scratch)
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, dict(nmax=5 if quick else 6, zeros=True, big=8)) for i in range(N)]))
