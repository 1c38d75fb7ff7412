"""Generated library against the model"""
import os
import re
import subprocess

import numpy as np

import full
import gen
import lib
import numeric
import robots as rob

RULE = ("Robots of every kind are generated by the command line (some with saved functions), compiled and run: every getter and every saved function is called and compared with the model's own "
        "value for the same states and, after changing symbolic parameters, again; the getters in the object code are compared with the model's functions, and the reported joint counts, "
        "orders and elastic flags with the configuration. Distinct: joint types, orders and masks differ.")


def robots(ck, count, nmax):
    kws = [dict(elastic=0), dict(elastic=2), dict(elastic=1), dict(elastic=0, sym="full"), dict(elastic=2, sym="full"), dict(elastic=2, sym="none"), dict(elastic=3)]
    out = gen.spec_list(ck, count, nmax, "k", lambda i: dict(kws[i % 7], orders=rob.picker(ck.seed, i)("orders", [[2, 1, 3], [1, 2, 1], [0, 1, 0], [1, 0, 2]])))
    # elastic model without any elastic joint
    z = rob.make_robot(ck.seed, 3001, n=2, types=["R", "P"], elastic=1, orders=[1, 1, 1])
    # as many joints, orders and elastic joints as need two digits
    b = rob.planar(ck.seed, 3002, 11, elastic=1, dl=2, orders=[2, 1, 1])
    o = rob.make_robot(ck.seed, 3003, n=2, elastic=1, dl=11, orders=[10, 12, 11])
    return out + [("zeroSEA", z), ("big", b), ("orders", o)]


def getters(obj, name):
    """names of the getters defined by the class in an object file"""
    o = subprocess.run(["nm", "-C", obj], capture_output=True, text=True).stdout
    return set(re.findall(r"\b[TW] thunder_%s::get_(\w+)\(" % re.escape(name), o))


def template_getters():
    t = ""
    for f in ("thunder_robot.h", "thunder_robot.cpp"):
        t += open(lib.THUNDER + "/thunder_robot_template/" + f, errors="replace").read()
    return set(re.findall(r"\bget_(\w+)\s*\(", t))


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    exe = eng.exe["engine_driver"]
    S = 4 if quick else 10
    fl = gen.Fleet(ck, eng, robots(ck, 12 if quick else 48, 3 if quick else 4), flags=["-f"], tag="fleet")
    fl.report_problems()
    base = template_getters()

    def one(d):
        rb, info, name = d["rb"], d["info"], d["name"]
        st = rob.states(rb, ck.seed, sum(map(ord, name)) + 300, S)
        r = rob.rng_of("c13", ck.seed, name)
        funs = {f[0]: f for f in info["funs"]}
        c = lib.Cmp()
        c.eq("getters", sorted(getters(fl.prog.dir + "/w_%s.o" % name, name) - base), sorted(funs), "getters of the generated class of %s against the functions of the model" % rb["types"])
        for s in (1, 2):      # references that are the velocities, or nearly
            f = 10 ** r.uniform(-9, -5, rb["n"]) * (s - 1)
            st["dqr"][s], st["ddqr"][s] = st["dq"][s] * (1 + f), st["ddq"][s] * (1 + f)
        tol = full.expect(rb, st)[1]
        sym = {g: np.array(rb["symb"][g], bool) for g in full.groups(rb)}
        cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
        se, so = lib.Script(), lib.Script()
        se.add("new", "r", name, d["conf"])
        so.add("new", "o", name)
        ii = so.add("o", "info")
        so.add("o", "loadconf", fl.conf_of(d))
        pairs, cas = [], []
        for s in range(S):
            if s >= S // 2:       # change symbolic parameters in both
                for g in cur:
                    if sym[g].any() and r.random() < .6:
                        cur[g] = np.where(sym[g], full.draw_group(r, rb, g), cur[g])
                        se.add("set", "r", full.ARG[g], lib.vec(cur[g][sym[g]]))
                        w, compact = gen.CLASS_PARAMS[g]
                        so.add("o", "set", w, lib.vec(cur[g][sym[g]] if compact else cur[g]))
                tol = full.expect(full.merge(rb, cur), st)[1]
            four = ("q", "dq", "dqr", "ddqr")
            at_once = r.random() < .5
            for a in numeric.state_args(rb):
                se.add("set", "r", a, lib.vec(st[a][s]))
                if not (at_once and a in four):
                    so.add("o", "set", a, lib.vec(st[a][s]))
            if at_once:
                so.add("o", "setArguments", *[lib.vec(st[a][s]) for a in four])
            for f in sorted(funs):
                t = np.asarray(tol[f][1]) if f in tol else None
                t = None if t is None else (t[s] if t.ndim else t)
                ie = se.add("get", "r", f)
                pairs.append((f, s, ie, so.add("o", "get", f), t))
                if s in (0, S - 1):
                    p = os.path.join(d["folder"], f + ".casadi")
                    v = []
                    for a in funs[f][1]:
                        g = {x: y for x, y in rob.PARAMS}.get(a)
                        v.append(lib.vec(cur[g][sym[g]]) if g in cur else (lib.vec(st[a][s]) if a in st else None))
                    if os.path.isfile(p) and None not in v:
                        cas.append((f, s, ie, se.add("cas", p, len(v), *v), t))
                    else:
                        c.bad("saved", "no saved function %s or it takes an unknown argument: %s" % (f, funs[f][1]))
        re_, ro = lib.run_script(exe, se, d["cwd"], "model"), fl.run(d, so, "class")
        for nm, x in (("model", re_), ("class", ro)):
            cr = x.crash()
            if cr:
                c.bad(nm + ":" + cr[0], "%s of %s: %s" % (nm, rb["types"], cr[1]))
        def comp(label, f, s, a, b, t):
            if b is not None and a is not None and t is None:
                t = 1e-10 * (1 + np.abs(a).max() if a.size else 1)
            c.num(label + f, b, a if a is not None else np.full((1, 1), np.nan), t if t is not None else 0, "%s%s of %s at state %d against the model" % (label, f, rb["types"], s))
        for f, s, a, b, t in pairs:
            va, vb = re_.val(a), ro.val(b)
            if a < len(re_.rec) and b < len(ro.rec):
                comp("class:", f, s, va, vb, t)
                c.eq("size:" + f, None if vb is None else list(vb.shape), list(funs[f][2]), "dimension of getter %s" % f)
        for f, s, a, b, t in cas:
            if a < len(re_.rec) and b < len(re_.rec):
                comp("saved:", f, s, re_.val(a), re_.val(b), t)
        n = rb["n"]
        el = [int(t.endswith("SEA")) for t in rb["types"]]
        K, D, Dm = (rb["K_order"], rb["D_order"], rb["Dm_order"]) if rb["ELASTIC"] else (0, 0, 0)
        want = dict(nj=n, getnj=n, ELASTIC=int(rb["ELASTIC"]), nej=sum(el), K=K, D=D, Dl=rb["Dl_order"], Dm=Dm, npD=10 * n, npR=10 * n, npD2=10 * n, npR2=10 * n, isel=el)
        if ii < len(ro.rec) and ro[ii][0] == "J":
            got = ro[ii][1]
            for k in want:
                c.eq("info", got.get(k), want[k], "%s reported by the generated class of %s" % (k, rb["types"]))
        return dict(fail=c.fail, obs=c.n, evals=S, sig=rob.signature(rb), worst=c.worst, sample=dict(getters=len(funs), **numeric.sample(rb, st, S - 1)), count={"generated_classes": 1, "saved_functions": len(cas)},
                    files={"robot.yaml": d["text"], "script": "\n".join(so.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))
