"""Parameter regressors"""
import os

import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots with all, some, one or no symbolic parameters in each group; friction, elastic, motor and kinematic regressors are compared column by column "
        "with the basis of the laws and with the dual-number derivatives of J dq and J'w; the set of regressors with the masks. Distinct as in C01.")
DOMAIN = r"reg_(dl|k|d|dm|Mm|Jdq|JTw)"


def pick(basis, mask):
    """(S, joints, order) basis -> (S, joints, symbolic coefficients)"""
    S, m, o = basis.shape
    full = np.zeros((S, m, m * o))
    for i in range(m):
        full[:, i, i * o:(i + 1) * o] = basis[:, i]
    return full[:, :, np.array(mask, bool)]


def expect(rb, st):
    n, e = rb["n"], rb["nej"]
    sy = rb["symb"]
    want = {}
    def put(f, v, rel=1e-12):
        want[f] = (v, np.abs(v) * rel * 10)
    if rb["Dl_order"] and any(sy["Dl"]):
        put("reg_dl", pick(ref.odd_basis(rb["Dl_order"], st["dq"]), sy["Dl"]))
    if rb["ELASTIC"] and e:
        j = [i for i, t in enumerate(rb["types"]) if t.endswith("SEA")]
        ex, ev = st["x"] - st["q"][:, j], st["dx"] - st["dq"][:, j]
        if any(sy["K"]):
            put("reg_k", pick(ref.spring_basis(rb["K_order"], ex), sy["K"]), 1e-11)
        if any(sy["D"]):
            put("reg_d", pick(ref.odd_basis(rb["D_order"], ev), sy["D"]))
        if any(sy["Dm"]):
            put("reg_dm", pick(ref.odd_basis(rb["Dm_order"], st["dx"]), sy["Dm"]))
        if any(sy["Mm"]):
            put("reg_Mm", pick(st["ddx"][..., None], sy["Mm"]))
    par = [(g, i) for g in ("DH", "base", "ee") for i, v in enumerate(sy[g]) if v]
    if par:
        r = ref.Ref(rb, st["q"], nt=1, par_dir=par)
        J = r.point_jac(r.T0[n + 1])
        D = J.c.get((0, 0, 1))
        D = np.broadcast_to(D, (r.S, len(par), 6, n)) if D is not None else np.zeros((r.S, len(par), 6, n))
        big = 1e-11 * (1 + 20 * np.abs(st["q"]).max(1)) * r.L
        V, W = np.abs(st["dq"]).sum(1), np.abs(st["w"]).sum(1)
        A = np.einsum("skij,sj->sik", D, st["dq"])
        B = np.einsum("skij,si->sjk", D, st["w"])
        want["reg_Jdq"] = (A, (big * (V + 1e-3))[:, None, None] * np.ones((1, 6, len(par))))
        want["reg_JTw"] = (B, (big * (W + 1e-3))[:, None, None] * np.ones((1, n, len(par))))
    return set(want), want


def case(exe, root, seed, idx, S, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    names, want = expect(rb, st)
    extra = [f for f in ("dl", "k", "d", "dm") if "reg_" + f in want]
    vals, info, res, text = numeric.eval_engine(exe, os.path.join(root, "c%d" % idx), rb, st, S, sorted(want) + extra)
    c = lib.Cmp()
    obs = numeric.compare(c, rb, st, S, vals, info, res, names, want, DOMAIN)
    # torque = regressor * symbolic coefficients + fixed part, with the model's own values
    grp = {"dl": ("Dl", lambda: ref.odd_basis(rb["Dl_order"], st["dq"]))}
    j = [i for i, t in enumerate(rb["types"]) if t.endswith("SEA")]
    grp["k"] = ("K", lambda: ref.spring_basis(rb["K_order"], st["x"] - st["q"][:, j]))
    grp["d"] = ("D", lambda: ref.odd_basis(rb["D_order"], st["dx"] - st["dq"][:, j]))
    grp["dm"] = ("Dm", lambda: ref.odd_basis(rb["Dm_order"], st["dx"]))
    for f in extra:
        g, b = grp[f]
        full = np.array(rob.full_values(rb, g))
        m = np.array(rb["symb"][g], bool)
        fixed = pick(b(), ~m) @ full[~m]
        for s in range(S):
            y, t = vals["reg_" + f][s], vals[f][s]
            if y is None or t is None or y.shape[1] != m.sum() or t.shape != (y.shape[0], 1):
                c.bad("dimension", "reg_%s or %s has no value or a wrong dimension" % (f, f))
                continue
            sc = 1e-10 * (np.abs(y) @ np.abs(full[m]) + np.abs(t[:, 0]) + np.abs(fixed[s]))
            c.num("torque:" + f, y @ full[m] + fixed[s], t[:, 0], sc + 1e-290, "reg_%s * coefficients + fixed part against %s" % (f, f))
            obs += 1
    return dict(fail=c.fail, obs=obs, evals=S, sig=rob.signature(rb), sample=numeric.sample(rb, st, 3), worst=c.worst,
                files={"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {})


def kwf(i):
    orders = [[1, 0, 1], [2, 2, 3], [0, 1, 0], [3, 5, 2], [1, 3, 4], [5, 2, 5]]
    return dict(zeros=True, big=9, nmax=5, elastic=[2, 1, 2, 0, 2][i % 5], dl=[1, 2, 3, 0][(i // 2) % 4], orders=orders[(i // 3) % 6], sym=[None, None, "full", None, "none", None][i % 6])


def run(ck):
    quick = ck.tier == "quick"
    N, S = (240, 8) if quick else (1800, 16)
    eng = lib.Engine(ck.scratch)
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(case, [(eng.exe["engine_driver"], root, ck.seed, i, S, kwf(i)) for i in range(N)]))
