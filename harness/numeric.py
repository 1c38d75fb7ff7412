"""Robots evaluated by the model (engine) or a generated class against the numeric reference."""
import os
import re

import numpy as np

import lib
import robots as rob

STATE_ALL = ["q", "dq", "ddq", "d3q", "dqr", "ddqr", "w", "x", "dx", "ddx"]


def state_args(rb):
    return [a for a in STATE_ALL if rb["ELASTIC"] or a not in ("x", "dx", "ddx")]


def set_state(sc, rid, rb, st, s, only=None):
    for a in state_args(rb):
        if only is None or a in only:
            sc.add("set", rid, a, lib.vec(st[a][s]))


def write_conf(cwd, rb, **kw):
    os.makedirs(cwd, exist_ok=True)
    p = os.path.join(cwd, "robot.yaml")
    text = rob.to_yaml(rb, **kw)
    with open(p, "w") as f:
        f.write(text)
    return p, text


class Company:
    """other robots living in the same program: none, built before, after, or in the middle"""

    def __init__(self, sc, cwd, rb, st, S, text, funs, only=None):
        self.a = sc, cwd, rb, st, S, funs, only
        self.r = rob.rng_of("company", text)
        self.when = [None, -1, 0, 1, None][int(self.r.integers(5))]

    def __call__(self, k):
        if k != self.when:
            return
        sc, cwd, rb, st, S, funs, only = self.a
        d = rob.decoy(rb, self.r)
        path = os.path.join(cwd, "other.yaml")
        with open(path, "w") as f:
            f.write(rob.to_yaml(d))
        sc.add("new", "other", "rob" if self.r.integers(2) else "other", path)
        set_state(sc, "other", d, st, S - 1, only)
        for f in funs:
            sc.add("get", "other", f)


def eval_engine(exe, cwd, rb, st, S, funs, pre=None, only=None):
    """values of every function at every state: {fun: [array or None]}, info, result. pre: script lines after construction"""
    conf, text = write_conf(cwd, rb)
    sc = lib.Script()
    company = Company(sc, cwd, rb, st, S, text, funs, only)
    company(-1)
    sc.add("new", "r", "rob", conf)
    iinfo = sc.add("info", "r")
    for ln in pre or []:
        sc.add(ln)
    company(0)
    idx = {f: [] for f in funs}
    for s in range(S):
        if s:
            company(s)
        set_state(sc, "r", rb, st, s, only)
        for f in funs:
            idx[f].append(sc.add("get", "r", f))
    res = lib.run_script(exe, sc, cwd)
    info = res[iinfo][1] if res[iinfo][0] == "J" else None
    vals = {f: [res.val(i) for i in idx[f]] for f in funs}
    return vals, info, res, text


def funnames(info):
    return {f[0] for f in info["funs"]} if info else set()


def usable(cmp_, res, info, rb):
    """records crashes and refusals of a valid robot as violations; False when nothing can be compared"""
    c = res.crash()
    if c:
        cmp_.bad(c[0], "valid robot %s: %s" % (rb["types"], c[1]))
        return info is not None
    if info is None:
        cmp_.bad("refused", "valid robot %s was not built: %s" % (rb["types"], res[0]))
        return False
    return True


def sample(rb, st, s=0):
    d = dict(types=rb["types"], elastic=rb["ELASTIC"], orders=[rb["Dl_order"], rb["K_order"], rb["D_order"], rb["Dm_order"]],
             symbolic={k: sum(v) for k, v in rb["symb"].items()})
    if st is not None:
        d["q"] = [round(float(x), 4) for x in st["q"][s]]
    return d


def numeric_case(exe, root, seed, idx, S, kw, expect, domain, only=None):
    """expect(rb, st) -> (set of expected names within domain, {fun: (want (S,r,c), tol (S,) or array)})"""
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    names, want = expect(rb, st)
    cwd = os.path.join(root, "c%d" % idx)
    vals, info, res, text = eval_engine(exe, cwd, rb, st, S, sorted(want), only=only)
    c = lib.Cmp()
    obs = compare(c, rb, st, S, vals, info, res, names, want, domain)
    files = {"robot.yaml": text, "script": "\n".join(res.script)} if c.fail else {}
    return dict(fail=c.fail, obs=obs, evals=S, sig=rob.signature(rb), sample=sample(rb, st, min(3, S - 1)) if idx % 7 == 3 else None, worst=c.worst, files=files)


def compare(c, rb, st, S, vals, info, res, names, want, domain, label=""):
    obs = 0
    if not usable(c, res, info, rb):
        return obs
    if domain:
        have = {f for f in funnames(info) if re.fullmatch(domain, f)}
        c.eq(label + "functions", sorted(have), sorted(names), "functions of robot %s" % rb["types"])
    sizes = {f[0]: f[2] for f in info["funs"]}
    for f, (w, tol) in sorted(want.items()):
        w = np.asarray(w, float)
        tol = np.asarray(tol, float)
        for s in range(S):
            t = tol[s] if tol.ndim else tol
            c.num(label + f if len(f) < 12 else label + f, vals[f][s], w[s], t, "%s of robot %s (n=%d) at state %d" % (f, "/".join(rb["types"]), rb["n"], s))
            obs += 1
        if f in sizes:
            c.eq(label + "size:" + f, list(sizes[f]), list(w.shape[1:]), "declared size of " + f)
    return obs


def run_numeric(ck, expect_mod, N, S, kwf, expect, domain, only=None, exe=None):
    eng = None
    if exe is None:
        eng = lib.Engine(ck.scratch)
        exe = eng.exe["engine_driver"]
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(numeric_case, [(exe, root, ck.seed, i, S, kwf(i), expect, domain, only) for i in range(N)]))
    return exe


def col(v):
    return np.asarray(v)[..., None]
