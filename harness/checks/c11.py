"""Conversions between physical and regressor inertial parameters"""
import os

import numpy as np

import gen
import lib
import numeric
import ref
import robots as rob
import yamlio

RULE = ("Random sequences of inertial sets, loads (with and without updating the other parametrization), refused sets, explicit conversions and saves in the model (whole and "
        "partly symbolic inertial parameters) and in generated classes, plus the parameter-file generator; after every step both parametrizations are compared with the parallel-axis "
        "conversion, link by link. Distinct: joint types, masks and sequence of operations differ.")


def rand_dyn(r, n):
    L = np.array([rob.inertia(r, int(r.integers(0, 4))) for _ in range(n)], float)
    for i in range(n):
        k = int(r.integers(12))
        if k == 0:              # a light link: small mass, first moment and inertia of any size
            m = float(10 ** r.uniform(-15, -4)) * (1 if r.random() < .8 else -1)
            L[i, 1:4] *= 10 ** r.uniform(0, 6)
            L[i, 0] = m
        elif k == 1:            # heavy
            L[i] *= 10 ** r.uniform(0, 9)
        elif k == 2 and i:      # like another link
            L[i] = L[int(r.integers(i))]
        elif k == 3:
            L[i, 1 + int(r.integers(9))] = 0
    return L.ravel()


def vary(r, x, mass=True):
    """parameters of which only some change: a group, an element, one link"""
    x = np.array(x, float).reshape(-1, 10)
    n = len(x)
    links = range(n) if r.random() < .5 else [int(r.integers(n))]
    groups = [[[0], [1, 2, 3], [4, 5, 6, 7, 8, 9]][i] for i in range(3) if r.random() < .5] or [[int(r.integers(10))]]
    if r.random() < .3:
        groups = [[int(r.integers(10))]]
    for i in links:
        for g in groups:
            for k in g:
                if k == 0:
                    x[i, 0] *= float(r.uniform(.2, 3))
                else:
                    x[i, k] = x[i, k] * float(r.uniform(-2, 2)) + (float(r.normal()) * float(np.abs(x[i, 1:4] if k < 4 else x[i, 4:]).max() or 1) if r.random() < .5 else 0)
    return x.ravel()


def tol_of(d):
    """tolerances of physical and regressor parameters for physical parameters d"""
    d = np.asarray(d, float).reshape(-1, 10)
    tD, tR = np.zeros_like(d), np.zeros_like(d)
    for i, x in enumerate(d):
        m, c = float(abs(x[0])), float(np.abs(x[1:4]).max())
        s = float(np.abs(x[4:]).max()) + m * c * c * 3
        tD[i, 0], tD[i, 1:4], tD[i, 4:] = 1e-14 * m, 1e-13 * c, 1e-12 * s
        tR[i, 0], tR[i, 1:4], tR[i, 4:] = 1e-14 * m, 1e-13 * m * c, 1e-12 * s
    return tD.ravel() + 1e-300, tR.ravel() + 1e-300


class Spec:
    """what the two parametrizations must be, and the rounding that conversions may have left in them"""

    def __init__(self, n, dyn, mask=None, reg=None):
        self.n, self.mask = n, np.ones(10 * n, bool) if mask is None else np.array(mask, bool)
        self.D = np.array(dyn, float)
        self.tD = np.zeros(10 * n)
        if reg is None:
            self.upd_reg()
        else:
            self.R, self.tR = np.array(reg, float), np.zeros(10 * n)

    def copy(self):
        o = Spec(self.n, self.D.copy(), self.mask, self.R.copy())
        o.tD, o.tR = self.tD.copy(), self.tR.copy()
        return o

    def put_dyn(self, v, update=True):
        self.D = np.where(self.mask, v, self.D)
        self.tD = np.where(self.mask, 0, self.tD)
        if update:
            self.upd_reg()

    def put_reg(self, v, update=True):
        self.R = np.array(v, float)
        self.tR = np.zeros_like(self.R)
        if update:
            self.upd_dyn()

    def upd_reg(self):
        self.R = ref.dyn_to_reg(self.D)
        self.tR = tol_of(self.D)[1] + np.tile([0] * 4 + [1] * 6, self.n) * self.tD

    def upd_dyn(self):
        D = ref.reg_to_dyn(self.R)
        self.D = np.where(self.mask, D, self.D)
        self.tD = np.where(self.mask, tol_of(D)[0] + np.tile([0] * 4 + [1] * 6, self.n) * self.tR, self.tD)


def check_pair(c, where, spec, d, rg, label):
    t = tol_of(spec.D)[0], tol_of(ref.reg_to_dyn(spec.R))[1]
    c.num(label + ":DYN", None if d is None else d.ravel(), spec.D, t[0] + spec.tD, where + ": physical parameters")
    c.num(label + ":REG", None if rg is None else rg.ravel(), spec.R, t[1] + spec.tR, where + ": regressor parameters")


def engine_case(exe, root, seed, idx, steps):
    r = rob.rng_of("c11", seed, idx)
    Q = rob.picker(seed, idx)
    full = idx % 3 != 2
    n = Q("n", [1, 2, 3, 4, 5]) if full else Q("n", [1, 2])
    rb = rob.make_robot(seed, idx, n=n, elastic=Q("elastic", [0, 2, 0]), dl=Q("Dl", [0, 1, 2]), orders=[1, 1, 1], sym=dict(dyn=Q("dyn", [1, 2, 3, 4, 0])))
    cwd = os.path.join(root, "c%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    mask = None if full else rb["symb"]["dyn"]
    spec = Spec(n, rob.full_values(rb, "dyn"), mask)
    sc = lib.Script()
    sc.add("new", "r", "rob", conf, 0 if full else 1)
    todo = [("after construction", spec.copy(), sc.add("getdyn", "r"), sc.add("getreg", "r"), None, None)]
    ops = []
    for k in range(steps):
        op = ["dyn", "reg", "badD", "badR", "conf", "conf0", "lreg", "lreg0", "updD", "updR", "sreg"][int(r.integers(11))]
        v = rand_dyn(r, n) if r.random() < .55 else vary(r, spec.D)
        vr = ref.dyn_to_reg(v) if r.random() < .5 else vary(r, spec.R)
        at, ret = None, None
        if op == "dyn":
            at, ret = sc.add("setn", "r", "par_DYN", lib.vec(v)), 1
            spec.put_dyn(v)
        elif op == "reg":
            at, ret = sc.add("setn", "r", "par_REG", lib.vec(vr)), 1
            spec.put_reg(vr)
        elif op in ("badD", "badR"):
            m = [0, 10 * n - 1, 10 * n + 1, 10 * n + 10, n][int(r.integers(5))]
            at, ret = sc.add("setn", "r", "par_DYN" if op == "badD" else "par_REG", lib.vec(np.ones(m))), 0
        elif op in ("conf", "conf0"):
            p = os.path.join(cwd, "conf%d.yaml" % k)
            with open(p, "w") as f:
                f.write(rob.to_yaml(rob.with_values(rb, "dyn", v)))
            at, ret = (sc.add("loadconf", "r", p) if op == "conf" else sc.add("loadconf", "r", p, 0)), 1
            spec.put_dyn(v, op == "conf")
        elif op in ("lreg", "lreg0"):
            p = os.path.join(cwd, "reg%d.yaml" % k)
            yamlio.write_inertial(p, vr.reshape(-1, 10), yamlio.REG)
            at = sc.add("loadreg", "r", p) if op == "lreg" else sc.add("loadreg", "r", p, 0)
            ret = vr
            spec.put_reg(ret, op == "lreg")
        elif op == "updD":
            at, ret = sc.add("updDYN", "r"), 1
            spec.upd_dyn()
        elif op == "updR":
            at, ret = sc.add("updREG", "r"), 1
            spec.upd_reg()
        else:
            at, ret = sc.add("savereg", "r", os.path.join(cwd, "s%d.yaml" % k)), 1
        ops.append(op)
        todo.append(("step %d %s of %s" % (k, op, ops[-4:]), spec.copy(), sc.add("getdyn", "r"), sc.add("getreg", "r"), at, ret))
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad(cr[0], "model of %s: %s" % (rb["types"], cr[1]))
    for where, s, a, b, at, ret in todo:
        if b >= len(res.rec):
            break
        check_pair(c, where, s, res.val(a), res.val(b), "model" if full else "model-masked")
        if at is not None:
            if isinstance(ret, int):
                c.eq("model:return", res[at], ("OK", ret), where + ": result of the call")
            else:
                c.num("model:return", None if res.val(at) is None else res.val(at).ravel(), ret, 0, where + ": returned parameters")
    return dict(fail=c.fail, obs=c.n, sig=repr((rb["types"], mask, ops)), worst=c.worst, count={"operations": steps},
                sample=dict(types=rb["types"], masked=not full, operations=ops) if idx % 11 == 2 else None,
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def inertial_case(exe, root, seed, idx, steps):
    """genInertial_files"""
    r = rob.rng_of("c11i", seed, idx)
    rb = rob.make_robot(seed, idx, n=rob.picker(seed, idx)("n", [1, 2, 3, 4, 5, 6]), dl=rob.picker(seed, idx)("Dl", [0, 1, 2, 3]))
    n = rb["n"]
    nj = n if idx % 3 else 1 + int(r.integers(n))
    cwd = os.path.join(root, "i%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    pd, pr = os.path.join(cwd, "dyn.yaml"), os.path.join(cwd, "reg.yaml")
    sc = lib.Script()
    sc.add("inertial", "rob", nj, conf, pd, pr)
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad("files:" + cr[0], "genInertial_files of %s: %s" % (rb["types"], cr[1]))
    else:
        c.eq("files:return", res[0], ("OK", 1), "genInertial_files of a valid configuration")
        D = np.array(rob.full_values(rb, "dyn"))[:10 * nj]
        want_dl = [list(x) for x in rb["Dl"][:nj]]
        for p, keys, want, tol in ((pd, yamlio.DYN, D, 0), (pr, yamlio.REG, ref.dyn_to_reg(D), tol_of(D)[1])):
            y = yamlio.inertial(p, keys)
            what = os.path.basename(p)
            if y is None:
                c.bad("files:form", "%s has not the form of an inertial parameter file" % what)
                continue
            c.eq("files:links", y[0], [rob.part_name(rb, "link", i, rb["n"]) for i in range(nj)], what + ": links")
            c.num("files:" + what, np.array(y[1]).ravel(), want, tol, what + ": parameters")
            if rb["Dl_order"]:
                c.eq("files:Dl", y[2], want_dl, what + ": link friction")
    return dict(fail=c.fail, obs=c.n, sig="files" + repr((rb["types"], nj, rb["Dl_order"])), worst=c.worst,
                count={"parameter_files": 2}, files={"robot.yaml": text} if c.fail else {})


def class_cases(ck, eng, count, steps):
    def kwf(i):
        Q = rob.picker(ck.seed, i)
        return dict(n=Q("n", [1, 2, 3]), elastic=Q("elastic", [0, 2]), dl=Q("Dl", [0, 1, 2]), orders=[1, 0, 1], sym=dict(dyn=Q("dyn", [2, 1, 0, 3, 4])), inert=Q("inertia", [0, 2, 3]))
    fl = gen.Fleet(ck, eng, gen.spec_list(ck, count, 3, "v", kwf), tag="fleet")
    fl.report_problems()

    def one(d):
        rb, n, cwd = d["rb"], d["rb"]["n"], d["cwd"]
        r = rob.rng_of("c11w", ck.seed, d["name"])
        c = lib.Cmp()
        D0 = np.array(rob.full_values(rb, "dyn"))
        # file written by the command line
        y = yamlio.inertial(os.path.join(d["folder"], d["name"] + "_par_REG.yaml"), yamlio.REG)
        if y is None:
            c.bad("cli:form", "%s_par_REG.yaml has not the form of a regressor parameter file" % d["name"])
        else:
            c.num("cli:REG", np.array(y[1]).ravel(), ref.dyn_to_reg(D0), tol_of(D0)[1], "regressor parameters written by the command line")
        sc = lib.Script()
        sc.add("new", "o", d["name"])
        sc.add("o", "loadconf", fl.conf_of(d))
        spec = Spec(n, D0)
        todo = [("after load_conf", spec.copy(), sc.add("o", "par", "par_DYN"), sc.add("o", "par", "par_REG"), None)]
        ops = []
        for k in range(steps):
            op = ["dyn", "dyn0", "reg", "reg0", "badD", "badR", "conf", "conf0", "lreg", "lreg0", "sreg", "sdyn"][int(r.integers(12))]
            v = rand_dyn(r, n) if r.random() < .55 else vary(r, spec.D)
            vr = ref.dyn_to_reg(v) if r.random() < .5 else vary(r, spec.R)
            chk = None
            if op == "dyn":
                sc.add("o", "set", "par_DYN", lib.vec(v)) if k % 2 else sc.add("o", "setf", "par_DYN", lib.vec(v), 1)
                spec.put_dyn(v)
            elif op == "dyn0":
                sc.add("o", "setf", "par_DYN", lib.vec(v), 0)
                spec.put_dyn(v, False)
            elif op == "reg":
                sc.add("o", "set", "par_REG", lib.vec(vr)) if k % 2 else sc.add("o", "setf", "par_REG", lib.vec(vr), 1)
                spec.put_reg(vr)
            elif op == "reg0":
                sc.add("o", "setf", "par_REG", lib.vec(vr), 0)
                spec.put_reg(vr, False)
            elif op in ("badD", "badR"):
                m = [0, 10 * n - 1, 10 * n + 1, 10 * n + 10, n][int(r.integers(5))]
                sc.add("o", "set", "par_DYN" if op == "badD" else "par_REG", lib.vec(np.ones(m)))
            elif op in ("conf", "conf0"):
                p = os.path.join(cwd, "conf%d.yaml" % k)
                with open(p, "w") as f:
                    f.write(rob.to_yaml(rob.with_values(rb, "dyn", v)))
                sc.add("o", "loadconf", p) if op == "conf" else sc.add("o", "loadconf", p, 0)
                spec.put_dyn(v, op == "conf")
            elif op in ("lreg", "lreg0"):
                p = os.path.join(cwd, "reg%d.yaml" % k)
                yamlio.write_inertial(p, vr.reshape(-1, 10), yamlio.REG, [[.5] * rb["Dl_order"]] * n if rb["Dl_order"] else None)
                i = sc.add("o", "loadreg", p) if op == "lreg" else sc.add("o", "loadreg", p, 0)
                spec.put_reg(vr, op == "lreg")
                chk = ("ret", i, vr)
            else:
                p = os.path.join(cwd, "s%d.yaml" % k)
                sc.add("o", "savereg" if op == "sreg" else "savedyn", p)
                chk = ("file", p, (yamlio.REG, spec.R.copy()) if op == "sreg" else (yamlio.DYN, spec.D.copy()))
            ops.append(op)
            todo.append(("step %d %s of %s" % (k, op, ops[-4:]), spec.copy(), sc.add("o", "par", "par_DYN"), sc.add("o", "par", "par_REG"), chk))
        res = fl.run(d, sc, "conv")
        cr = res.crash()
        if cr:
            c.bad("class:" + cr[0], "generated class of %s: %s" % (rb["types"], cr[1]))
        for where, sp, a, b, chk in todo:
            if b >= len(res.rec):
                break
            check_pair(c, where, sp, res.val(a), res.val(b), "class")
            if chk and chk[0] == "ret":
                v = res.val(chk[1])
                c.num("class:return", None if v is None else v.ravel(), chk[2], 0, where + ": parameters returned by load_par_REG")
            elif chk:
                y = yamlio.inertial(chk[1], chk[2][0])
                if c.true("class:file", y is not None, where + ": the saved file has not the form of an inertial file"):
                    t = [tol_of(sp.D)[0] + sp.tD, tol_of(sp.D)[1] + sp.tR][0 if chk[2][0] is yamlio.DYN else 1]
                    c.num("class:file", np.array(y[1]).ravel(), chk[2][1], np.maximum(t, 1e-12 * np.abs(chk[2][1]).max()), where + ": saved parameters")
        return dict(fail=c.fail, obs=c.n, sig="class" + repr((rb["types"], ops)), worst=c.worst, count={"operations": steps, "generated_classes": 1},
                    files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    exe = eng.exe["engine_driver"]
    N, steps = (150, 25) if quick else (2500, 60)
    ck.take(lib.run_cases(engine_case, [(exe, root, ck.seed, i, steps) for i in range(N)]))
    ck.take(lib.run_cases(inertial_case, [(exe, root, ck.seed, i, 0) for i in range(60 if quick else 800)]))
    class_cases(ck, eng, 6 if quick else 24, 60 if quick else 400)
