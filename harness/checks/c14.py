"""Results depend only on the last accepted inputs"""
import copy, os

import numpy as np

import full
import gen
import lib
import numeric
import ref
import robots as rob
from checks.c11 import check_pair, rand_dyn, tol_of, Spec

RULE = ("Random histories of accepted and refused setters, getters, saves, failed loads, copies and assignments over several instances (of the same and of different robots) in one process, in "
        "the model and in generated classes. A sequential specification predicts every stored input (bit-exact, conversions within rounding); every function value is replayed on an instance "
        "without that history and must be bit-identical. Distinct: histories differ.")

STATES = [("q", "n"), ("dq", "n"), ("ddq", "n"), ("d3q", "n"), ("d4q", "n"), ("dqr", "n"), ("ddqr", "n"), ("w", "6"), ("x", "e"), ("dx", "e"), ("ddx", "e"), ("ddxr", "e")]


def sizes(rb):
    n, e = rb["n"], rb["nej"]
    return {a: {"n": n, "6": 6, "e": e}[k] for a, k in STATES if k != "e" or rb["ELASTIC"]}


def bad_size(r, ok):
    while True:
        m = [0, ok - 1, ok + 1, ok + 2, 2 * ok, 1, ok + 10][int(r.integers(7))]
        if m >= 0 and m != ok:
            return m


def draw_value(r, cur, others, fresh):
    """a value of the size of cur: mostly unrelated, sometimes as close to what was there before as it gets"""
    k = int(r.integers(20))
    cur = np.array(cur, float)
    if cur.size == 0 or k >= 9:
        return fresh
    if k == 0:
        return cur
    if k == 1:
        return np.nextafter(cur, 9e9)
    if k == 2:
        return cur + 1e-9 * r.normal(size=cur.size)
    if k in (3, 4):
        v = cur.copy()
        j = int(r.integers(cur.size))
        v[j] = fresh[j]
        return v
    if k == 5:
        return -cur
    if k == 6:
        return np.zeros(cur.size)
    if k == 7:
        v = [x for x in others if np.size(x) == cur.size]
        return np.array(v[int(r.integers(len(v)))], float) if v else fresh
    return cur[::-1].copy()


class Inst:
    """accepted inputs of one instance"""

    def __init__(self, rb, key):
        self.rb, self.key = rb, key
        self.a = {k: np.zeros(s) for k, s in sizes(rb).items()}
        self.par = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
        self.inert = Spec(rb["n"], self.par["dyn"], rb["symb"]["dyn"])
        self.old, self.last = {}, None
        self.dynop = None               # how the inertial parameters got their values

    def clone(self):
        o = Inst(self.rb, self.key)
        o.a, o.par, o.dynop, o.old = dict(self.a), dict(self.par), self.dynop, dict(self.old)
        o.inert = self.inert.copy()
        return o


def engine_history(sc, r, robots, steps):
    """appends a history to a script; returns what to expect"""
    insts, todo, snaps = {}, [], []
    names = {}
    for i, (rb, conf, funs) in enumerate(robots):
        for j in range(2 if i == 0 else 1):
            insts["r%d%d" % (i, j)] = Inst(rb, i)
            sc.add("new", "r%d%d" % (i, j), "rob%d" % i, conf)
        names[i] = funs
    def expect(kind, i, want, where):
        todo.append((kind, i, want, where))
    hist = []
    for k in range(steps):
        ids = sorted(insts)
        id_ = ids[int(r.integers(len(ids)))]
        I = insts[id_]
        rb = I.rb
        ok = r.random() < .7
        op = r.choice(["set", "setn", "par", "dyn", "reg", "get", "get", "get", "save", "load", "copy", "assign", "loadpar", "wrongname"],
                      p=np.array([6, 3, 4, 1.5, 1.5, 5, 5, 5, 1, 1, .6, .5, 1, .5]) / 35.6)
        where = "step %d %s on %s after %s" % (k, op, id_, hist[-5:])
        hist.append(op + ("" if ok else "!"))
        if op in ("set", "setn"):
            nm = sorted(I.a)[int(r.integers(len(I.a)))]
            if op == "setn" and nm in ("ddq", "d3q", "d4q", "w"):
                op = "set"
            m = I.a[nm].size
            if not ok:
                m = bad_size(r, m)
            v = r.normal(0, 2, m)
            if ok:
                v = draw_value(r, I.a[nm], list(I.a.values()) + list(I.old.values()), v)
                I.old[nm] = I.a[nm]
            expect("ret", sc.add(op, id_, nm, lib.vec(v)), int(ok), where)
            if ok:
                I.a[nm] = v
        elif op == "par":
            gs = [g for g in I.par]
            g = gs[int(r.integers(len(gs)))]
            mk = np.array(rb["symb"][g], bool)
            new = full.draw_group(r, rb, g)
            if ok:
                new = np.where(mk, draw_value(r, I.par[g], [], new), new) if g != "dyn" else new
                v = new[mk]
                I.par[g] = np.where(mk, new, I.par[g])
                if g == "dyn":
                    I.dynop = ("set", full.ARG[g], v)
                    I.inert.put_dyn(I.par[g], False)
            else:
                v = np.ones(bad_size(r, int(mk.sum())))
            expect("ret", sc.add("set", id_, full.ARG[g], lib.vec(v)), int(ok), where + " " + g)
        elif op in ("dyn", "reg"):
            v = rand_dyn(r, rb["n"]) if ok else np.ones(bad_size(r, 10 * rb["n"]))
            if ok and r.random() < .4:      # one entry changes
                w, j = I.inert.D.copy().ravel(), int(r.integers(10 * rb["n"]))
                w[j] = v[j]
                v = w
            nm = "par_DYN" if op == "dyn" else "par_REG"
            if ok and op == "reg":
                v = ref.dyn_to_reg(v)
            expect("ret", sc.add("setn", id_, nm, lib.vec(v)), int(ok), where)
            if ok:
                (I.inert.put_dyn if op == "dyn" else I.inert.put_reg)(v)
                I.dynop = ("setn", nm, v)
        elif op == "get":
            f = names[I.key][int(r.integers(len(names[I.key])))]
            i = sc.add("get", id_, f)
            snaps.append((f, I.key, i, I.clone(), where + " " + f))
            I.last = f
        elif op == "save":
            w = ["saveconf", "savereg", "savepar"][int(r.integers(3))]
            expect("ret", sc.add(w, id_, "out%d.yaml" % k), 1, where + " " + w)
        elif op == "load":
            w = ["loadconf", "loadreg", "loadpar"][int(r.integers(3))]
            i = sc.add(w, id_, "/nonexistent/f.yaml")
            if w != "loadreg":
                expect("ret", i, 0, where + " of a missing file")
        elif op == "loadpar":
            gs = [g for g in I.par if any(rb["symb"][g]) and g != "dyn"]
            if gs:      # a parameter saved and loaded again changes nothing
                g = gs[int(r.integers(len(gs)))]
                expect("ret", sc.add("savepar", id_, "p%d.yaml" % k, lib.lst([full.ARG[g]])), 1, where)
                expect("ret", sc.add("loadpar", id_, "p%d.yaml" % k), 1, where)
        elif op == "wrongname":
            sc.add("get", id_, "no_such_function")
        elif op == "copy":
            nid = "c%d" % k
            sc.add("copy", nid, id_)
            insts[nid] = I.clone()
        elif op == "assign":
            same = [x for x in ids if insts[x].key == I.key and x != id_]
            if same:
                x = same[int(r.integers(len(same)))]
                sc.add("assign", id_, x)
                insts[id_] = insts[x].clone()
        if op != "get" and I.last and id_ in insts and insts[id_] is I and r.random() < .3:     # the same getter again
            snaps.append((I.last, I.key, sc.add("get", id_, I.last), I.clone(), where + " and again " + I.last))
        # what the touched instance and another one hold
        for x in {id_, ids[int(r.integers(len(ids)))]}:
            J = insts[x]
            nm = sorted(J.a)[int(r.integers(len(J.a)))]
            expect("val", sc.add("arg", x, nm), J.a[nm], "stored %s of %s after %s" % (nm, x, where))
            gs = [g for g in J.par if g != "dyn"]
            g = gs[int(r.integers(len(gs)))]
            expect("val", sc.add("arg", x, full.ARG[g]), J.par[g][np.array(J.rb["symb"][g], bool)], "stored %s of %s after %s" % (full.ARG[g], x, where))
        J = insts[id_]
        todo.append(("pair", (sc.add("getdyn", id_), sc.add("getreg", id_)), J.inert.copy(), where))
    # replay on instances without history, each robot in a process of its own
    out, fresh = [], {}
    for f, key, i, J, where in snaps:
        x = "f%d" % key
        sc = fresh.get(key)
        if sc is None:
            sc = fresh[key] = lib.Script()
            sc.add("new", x, "rob%d" % key, robots[key][1])
        for a, v in J.a.items():
            sc.add("set", x, a, lib.vec(v))
        for g, v in J.par.items():
            if g != "dyn":
                sc.add("set", x, full.ARG[g], lib.vec(v[np.array(J.rb["symb"][g], bool)]))
        if J.dynop:
            sc.add(J.dynop[0], x, J.dynop[1], lib.vec(J.dynop[2]))
        else:
            sc.add("set", x, "par_DYN", lib.vec(np.array(rob.full_values(J.rb, "dyn"))[np.array(J.rb["symb"]["dyn"], bool)]))
        out.append((i, key, sc.add("get", x, f), f, where))
    return todo, out, fresh, hist


def judge(c, res, todo, out, alone, label):
    for x in [res] + [alone[k] for k in sorted(alone)]:
        cr = x.crash()
        if cr:
            c.bad(label + cr[0], cr[1])
    N = len(res.rec)
    for kind, i, want, where in todo:
        if kind == "pair":
            if i[1] < N:
                check_pair(c, where, want, res.val(i[0]), res.val(i[1]), label + "inertial")
        elif i >= N:
            continue
        elif kind == "ret":
            c.eq(label + "return", res[i], ("OK", want), where)
        elif kind == "val":
            v = res.val(i)
            c.same(label + "stored", None if v is None else v.ravel(), want, where)
    for i, k, j, f, where in out:
        if i < N and j < len(alone[k].rec) and alone[k].val(j) is not None:
            c.same(label + "value:" + f, res.val(i), alone[k].val(j), "value got at %s against an instance without history" % where)


def engine_case(exe, root, seed, idx, steps):
    r = rob.rng_of("c14", seed, idx)
    cwd = os.path.join(root, "c%d" % idx)
    os.makedirs(cwd)
    rbs = []
    for k in range(2):
        rb = rob.make_robot(seed, idx * 7 + k, n=11 - 9 * k if idx % 60 == 13 else 1 + (idx + k) % (3 if k == 0 and idx % 4 == 0 else 2), elastic=rob.picker(seed, 2 * idx + k)("elastic", [2, 0, 1]), orders=[[1, 1, 1], [2, 0, 1]][k], dl=rob.picker(seed, idx)("Dl", [2, 0, 1]), inert=0)
        p = os.path.join(cwd, "r%d.yaml" % k)
        with open(p, "w") as f:
            f.write(rob.to_yaml(rb))
        rbs.append((rb, p, sorted(full.expect(rb, rob.states(rb, 0, 0, 1))[0])))
    sc = lib.Script()
    todo, out, fresh, hist = engine_history(sc, r, rbs, steps)
    res = lib.run_script(exe, sc, cwd)
    alone = {k: lib.run_script(exe, s, cwd, "alone%d" % k) for k, s in fresh.items()}
    c = lib.Cmp()
    judge(c, res, todo, out, alone, "model:")
    return dict(fail=c.fail, obs=c.n, evals=steps, sig=" ".join(hist), sample=dict(history=hist[:25], robots=[x[0]["types"] for x in rbs]) if idx % 7 == 3 else None, worst=c.worst,
                files={"robot%d.yaml" % k: rob.to_yaml(x[0]) for k, x in enumerate(rbs)} | {"script": "\n".join(sc.lines)} if c.fail else {})


# ------------------------------------------------------------------ generated classes
class Cls:
    """accepted inputs of an instance of a generated class after load_conf"""

    def __init__(self, d, conf):
        rb = self.rb = d["rb"]
        self.d, self.conf = d, conf
        n, e = rb["n"], rb["nej"]
        self.a = {a: np.zeros({"n": n, "6": 6, "e": e}[k]) for a, k in STATES}
        self.old, self.last = {}, None
        self.load(conf[1])

    def load(self, rb, old=None):
        """old: inputs before loading; a section the file does not have changes nothing"""
        self.par = {}
        K = rb["ELASTIC"]
        for g, (w, compact) in gen.CLASS_PARAMS.items():
            v = np.array(rob.full_values(rb, g))
            if g in ("K", "D", "Dm") and not K:
                v = np.zeros(0)
            if g == "Mm" and not K:
                v = np.zeros(rb["nej"])
            if compact:
                v = v[np.array(rb["symb"][g], bool)]        # the flags the class was generated with
            if old and ((g == "Mm" and not K) or (g == "gravity" and rb["gravity"] is None)):
                v = old[w]
            self.par[w] = v
        self.inert = Spec(rb["n"], rob.full_values(rb, "dyn"))
        self.dynop = ("set", "par_DYN", np.array(rob.full_values(rb, "dyn")))

    def clone(self):
        o = Cls(self.d, self.conf)
        o.a, o.par, o.dynop, o.old = dict(self.a), dict(self.par), self.dynop, dict(self.old)
        o.inert = self.inert.copy()
        return o


def other_flags(r, rb):
    """the same robot with other symbolic flags in its file"""
    rb = copy.deepcopy(rb)
    kind = int(r.integers(3))
    for k, v in rb["symb"].items():
        rb["symb"][k] = [0] * len(v) if kind == 0 else [1] * len(v) if kind == 1 else [int(x) for x in r.integers(0, 2, len(v))]
    rb["style"] = int(r.integers(8))
    return rb


def class_history(fl, sc, r, ds, steps, cwd):
    insts, todo, snaps, hist = {}, [], [], []
    confs = {}
    for i, d in enumerate(ds):
        confs[i] = [(fl.conf_of(d), d["rb"])]
        alt = full.merge(d["rb"], {g: full.draw_group(r, d["rb"], g) for g in ("DH", "base", "dyn", "gravity") if not (g == "gravity" and d["rb"]["gravity"] is None)})
        p = os.path.join(cwd, "alt%d.yaml" % i)
        with open(p, "w") as f:
            f.write(rob.to_yaml(alt))
        confs[i].append((p, alt))
        p = os.path.join(cwd, "flags%d.yaml" % i)
        with open(p, "w") as f:
            f.write(rob.to_yaml(other_flags(r, alt)))
        confs[i].append((p, alt))
        for j in range(2):
            x = "o%d%d" % (i, j)
            sc.add("new", x, d["name"])
            sc.add(x, "loadconf", confs[i][0][0])
            insts[x] = Cls(d, confs[i][0])
            insts[x].key = i
    for k in range(steps):
        ids = sorted(insts)
        x = ids[int(r.integers(len(ids)))]
        I = insts[x]
        rb = I.rb
        ok = r.random() < .7
        op = str(r.choice(["set", "setArguments", "par", "dyn", "reg", "DH", "get", "save", "badload", "copy", "loadconf", "resize"],
                          p=np.array([8, 1.5, 6, 1.5, 1.5, .8, 14, 1, 1, .5, .6, .3]) / 36.7))
        where = "step %d %s%s on %s (%s) after %s" % (k, op, "" if ok else " (wrong dimension)", x, I.d["name"], hist[-5:])
        hist.append(op + ("" if ok else "!"))
        if op == "set":
            nm = sorted(I.a)[int(r.integers(len(I.a)))]
            v = r.normal(0, 2, I.a[nm].size if ok else bad_size(r, I.a[nm].size))
            if ok:
                v = draw_value(r, I.a[nm], list(I.a.values()) + list(I.old.values()), v)
                I.old[nm] = I.a[nm]
            sc.add(x, "set", nm, lib.vec(v))
            if ok:
                I.a[nm] = v
        elif op == "setArguments":
            vs = [r.normal(0, 1, rb["n"]) for _ in range(4)]
            if not ok:
                j = int(r.integers(4))
                vs[j] = np.ones(bad_size(r, rb["n"]))
            else:
                vs = [draw_value(r, I.a[nm], list(I.a.values()), v) for nm, v in zip(("q", "dq", "dqr", "ddqr"), vs)]
            sc.add(x, "setArguments", *[lib.vec(v) for v in vs])
            if ok:
                for nm, v in zip(("q", "dq", "dqr", "ddqr"), vs):
                    I.a[nm] = v
        elif op == "par":
            ws = sorted(w for w in I.par if w != "par_DYN")
            w = ws[int(r.integers(len(ws)))]
            m = I.par[w].size
            v = r.uniform(-2, 2, m if ok else bad_size(r, m))
            if ok:
                v = draw_value(r, I.par[w], [], v)
            sc.add(x, "set", w, lib.vec(v))
            if ok:
                I.par[w] = v
        elif op in ("dyn", "reg"):
            nm = "par_DYN" if op == "dyn" else "par_REG"
            v = rand_dyn(r, rb["n"]) if ok else np.ones(bad_size(r, 10 * rb["n"]))
            if ok and r.random() < .4:      # one entry changes
                w, j = I.inert.D.copy().ravel(), int(r.integers(10 * rb["n"]))
                w[j] = v[j]
                v = w
            if ok and op == "reg":
                v = ref.dyn_to_reg(v)
            sc.add(x, "set", nm, lib.vec(v))
            if ok:
                (I.inert.put_dyn if op == "dyn" else I.inert.put_reg)(v)
                I.dynop = ("set", nm, v)
        elif op == "DH":
            m = I.par["par_DHtable"].size
            n = rb["n"]
            if m == 4 * n and ok:
                v = r.uniform(-1, 1, (n, 4))
                sc.add(x, "setDH", lib.matx(v))
                I.par["par_DHtable"] = v.ravel()
            elif m != 4 * (n + 1):
                sc.add(x, "setDH", lib.matx(r.uniform(-1, 1, (n + 1, 4))))
        elif op == "get":
            fs = I.d["funs"]
            f = fs[int(r.integers(len(fs)))]
            snaps.append((f, x, sc.add(x, "get", f), I.clone(), where + " " + f, I.key))
            I.last = f
        elif op == "save":
            w = ["savereg", "savedyn", "savepar"][int(r.integers(3))]
            i = sc.add(x, w, os.path.join(cwd, "out%d.yaml" % k))
            if w == "savepar":
                todo.append(("ret", i, 1, where))
        elif op == "badload":
            sc.add(x, ["loadconf", "loadreg"][int(r.integers(2))], "/nonexistent/f.yaml")
        elif op == "copy":
            nid = "c%d" % k
            sc.add("copy", nid, x)
            insts[nid] = I.clone()
            insts[nid].key = I.key
        elif op == "loadconf":
            cf = confs[I.key][int(r.integers(3))]
            sc.add(x, "loadconf", cf[0])
            I.conf = cf
            I.load(cf[1], I.par)
        elif op == "resize":
            sc.add(x, "resize")
            sc.add(x, "loadconf", I.conf[0])
            a, b, kk = I.d, I.conf, I.key
            insts[x] = Cls(a, b)
            insts[x].key = kk
        if op != "get" and I.last and insts[x] is I and r.random() < .3:
            snaps.append((I.last, x, sc.add(x, "get", I.last), I.clone(), where + " and again " + I.last, I.key))
        for y in {x, ids[int(r.integers(len(ids)))]}:
            J = insts[y]
            ws = sorted(w for w in J.par if w != "par_DYN")
            w = ws[int(r.integers(len(ws)))]
            todo.append(("val", sc.add(y, "par", w), J.par[w], "stored %s of %s after %s" % (w, y, where)))
        J = insts[x]
        todo.append(("pair", (sc.add(x, "par", "par_DYN"), sc.add(x, "par", "par_REG")), J.inert.copy(), where))
    out, fresh = [], {}
    for n, (f, x, i, J, where, key) in enumerate(snaps):
        y = "f%d" % n
        k = J.d["name"]
        sc = fresh.setdefault(k, lib.Script())
        sc.add("new", y, J.d["name"])
        if n % 3:               # otherwise only the setters
            sc.add(y, "loadconf", J.conf[0])
        for a, v in J.a.items():
            sc.add(y, "set", a, lib.vec(v))
        for w, v in J.par.items():
            if w != "par_DYN":
                sc.add(y, "set", w, lib.vec(v))
        sc.add(y, J.dynop[0], J.dynop[1], lib.vec(J.dynop[2]))
        out.append((i, k, sc.add(y, "get", f), f, where))
        sc.add("del", y)
    return todo, out, fresh, hist


# ------------------------------------------------------------------ every setter in turn
def sweep(sc, r, rb, setter, values, getters, sizes_, bad, restore, ways=(lambda *a: None,)):
    """setter by setter: refused calls change nothing, an accepted value changes what it changes and the former value brings everything back.
    values: {setter: value in use}; getters(sc) asks for everything and returns record numbers"""
    groups, base = [], getters(sc)
    names = sorted(values)
    r.shuffle(names)
    for nm in names:
        for m in bad(r, nm, sizes_[nm]):
            setter(sc, nm, np.full(m, 1.25))
            groups.append((base, getters(sc), "after a refused set of %s with %d entries instead of %d" % (nm, m, sizes_[nm])))
        if sizes_[nm]:
            v = restore[nm](r)
            setter(sc, nm, v)
            mid = getters(sc)
            # again the same value, also by way of other values and of the other setter
            setter(sc, nm, v)
            groups.append((mid, getters(sc), "after %s was set to the same value again" % nm))
            for other in ways:
                setter(sc, nm, restore[nm](r))
                if other(sc, nm, restore[nm](r)) is not None:
                    other(sc, nm, v)
                else:
                    setter(sc, nm, v)
                groups.append((mid, getters(sc), "after %s was set to the same value again after others" % nm))
            for back, val in values[nm]:
                setter(sc, back, val)
            groups.append((base, getters(sc), "after %s was changed and set back" % nm))
    return groups


def sweep_judge(c, res, groups, label):
    cr = res.crash()
    if cr:
        c.bad(label + cr[0], cr[1])
    N = len(res.rec)
    for a, b, where in groups:
        for (f, i), (_, j) in zip(a, b):
            if max(i, j) < N and res.val(i) is not None:
                c.same(label + "sweep:" + f, res.val(j), res.val(i), "%s %s" % (f, where))


def sweep_bad(r, nm, m):
    cand = [x for x in (0, 1, m - 1, m + 1, 2 * m + 1) if x >= 0 and x != m]
    return sorted({cand[int(r.integers(len(cand)))], m + 1})


def sweep_tables(rb, size, pars):
    """values in use and how to draw others; pars: {setter name: (group, size)}"""
    vals, draw, sz = {}, {}, {}

    def some(r, a, b, k):       # some of the entries are round numbers
        return np.where(r.random(k) < .4, r.choice([0., 0., 1., -1., 2.], k).clip(a, b), r.uniform(a, b, k))
    r = rob.rng_of("c14sweep", rob.to_yaml(rb))
    for a, k in size.items():
        v = r.normal(0, 1, k)
        vals[a], draw[a], sz[a] = [(a, v)], (lambda r, k=k: some(r, -3, 3, k)), k
    for w, k in pars.items():
        v = r.uniform(-1, 2, k)
        vals[w], draw[w], sz[w] = [(w, v)], (lambda r, k=k: some(r, -1, 2, k)), k
    n = rb["n"]
    d = rand_dyn(r, n)
    vals["par_DYN"] = vals["par_REG"] = [("par_DYN", d)]
    sz["par_DYN"] = sz["par_REG"] = 10 * n
    draw["par_DYN"] = lambda r: rand_dyn(r, n)
    draw["par_REG"] = lambda r: ref.dyn_to_reg(rand_dyn(r, n))
    return vals, draw, sz


def engine_sweep(exe, root, seed, idx):
    r = rob.rng_of("c14s", seed, idx)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 14500 + idx, n=Q("n", [1, 2, 3]), elastic=Q("elastic", [1, 0, 2, 1]), orders=Q("orders", [[1, 1, 1], [2, 1, 2]]), dl=Q("Dl", [1, 2]), inert=0, sym=Q("masks", [None, "full", [2, 1, 3]]))
    cwd = os.path.join(root, "s%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    funs = sorted(full.expect(rb, rob.states(rb, 0, 0, 1))[0])
    sc = lib.Script()
    I0 = Inst(rb, 0)
    sc.add("new", "s", "rob", conf)
    pars = {full.ARG[g]: int(sum(rb["symb"][g])) for g in full.groups(rb) if g != "dyn"}
    vals, draw, sz = sweep_tables(rb, sizes(rb), pars)

    def setter(sc, nm, v):
        sc.add("setn" if nm in ("par_DYN", "par_REG") else "set", "s", nm, lib.vec(v))

    def getters(sc):
        return ([(f, sc.add("get", "s", f)) for f in funs] + [(a, sc.add("arg", "s", a)) for a in list(sizes(rb)) + list(pars)]
                + [("getdyn", sc.add("getdyn", "s")), ("getreg", sc.add("getreg", "s"))])
    for nm in vals:
        for w, v in vals[nm]:
            setter(sc, w, v)
    def named(sc, nm, v):       # set_q and the like
        return sc.add("setn", "s", nm, lib.vec(v)) if nm in I0.a and nm not in ("ddq", "d3q", "d4q", "w") else None
    groups = sweep(sc, r, rb, setter, vals, getters, sz, sweep_bad, draw, (named, lambda *a: None))
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    sweep_judge(c, res, groups, "model:")
    return dict(fail=c.fail, obs=c.n, evals=len(groups), sig="sweep" + repr(rob.signature(rb)), worst={}, count={"sweep_steps": len(groups)},
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def class_sweep(ck, fl, d, k):
    r = rob.rng_of("c14sw", ck.seed, k)
    rb = d["rb"]
    I = Cls(d, (fl.conf_of(d), rb))
    sc = lib.Script()
    sc.add("new", "s", d["name"])
    sc.add("s", "loadconf", fl.conf_of(d))
    pars = {w: v.size for w, v in I.par.items() if w != "par_DYN"}
    vals, draw, sz = sweep_tables(rb, {a: v.size for a, v in I.a.items()}, pars)

    def setter(sc, nm, v):
        sc.add("s", "set", nm, lib.vec(v))

    def getters(sc):
        return [(f, sc.add("s", "get", f)) for f in d["funs"]] + [(w, sc.add("s", "par", w)) for w in list(pars) + ["par_DYN", "par_REG"]]
    for nm in vals:
        for w, v in vals[nm]:
            setter(sc, w, v)
    groups = sweep(sc, r, rb, setter, vals, getters, sz, sweep_bad, draw)
    # a refused call of the joint setter
    n = rb["n"]
    base = groups[0][0]
    for j in range(4):
        a = [np.full(n + (i == j) * (1 if k % 2 else -1), .75) for i in range(4)]
        sc.add("s", "setArguments", *[lib.vec(v) for v in a])
        groups.append((base, getters(sc), "after a refused setArguments whose argument %d has %d entries" % (j, a[j].size)))
    res = fl.run(d, sc, "sweep")
    c = lib.Cmp()
    sweep_judge(c, res, groups, "class:")
    return dict(fail=c.fail, obs=c.n, evals=len(groups), sig="sweep class" + repr(rob.signature(rb)), worst={}, count={"sweep_steps": len(groups)},
                files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})


def class_cases(ck, eng, nrob, nhist, steps):
    def kw(i):
        Q = rob.picker(ck.seed, i)
        return dict(elastic=Q("elastic", [2, 0, 1, 3]), orders=Q("orders", [[1, 1, 1], [2, 0, 1]]), dl=Q("Dl", [2, 0, 1]), inert=0, sym=Q("masks", [None, "full", None, "none", [2, 1, 3]]))
    # two elastic joints with everything symbolic
    el = [("hel", rob.make_robot(ck.seed, 14002, n=3, types=["R_SEA", "P", "P_SEA"], elastic=1, orders=[2, 1, 2], dl=2, inert=0, sym="full"))]
    big = el + [("hbig", rob.planar(ck.seed, 14001, 10, elastic=1, orders=[1, 1, 1], dl=1))]
    fl = gen.Fleet(ck, eng, big + gen.spec_list(ck, nrob, 2, "h", kw), tag="fleet")
    fl.report_problems()
    good = fl.good()
    for d in good:
        d["funs"] = sorted(f[0] for f in d["info"]["funs"])

    def one(k):
        r = rob.rng_of("c14w", ck.seed, k)
        ds = [good[k % len(good)], good[(k + 1 + k // len(good)) % len(good)]]
        cwd = ck.scratch.sub("hist%d" % k)
        sc = lib.Script()
        todo, out, fresh, hist = class_history(fl, sc, r, ds, steps, cwd)
        res = lib.run_script(fl.prog.exe, sc, cwd)
        alone = {k: lib.run_script(fl.prog.exe, s, cwd, "alone_" + k) for k, s in fresh.items()}
        c = lib.Cmp()
        judge(c, res, todo, out, alone, "class:")
        return dict(fail=c.fail, obs=c.n, evals=steps, sig="class " + " ".join(hist), sample=dict(history=hist[:25], classes=[d["rb"]["types"] for d in ds]) if k == 2 else None, worst=c.worst,
                    files={d["name"] + ".yaml": d["text"] for d in ds} | {"script": "\n".join(sc.lines)} if c.fail else {})
    if good:
        ck.take(lib.par(one, range(nhist)))
        ck.take(lib.par(lambda k: class_sweep(ck, fl, good[k], k), range(len(good))))


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(engine_case, [(eng.exe["engine_driver"], root, ck.seed, i, 80 if quick else 200) for i in range(60 if quick else 800)]))
    ck.take(lib.run_cases(engine_sweep, [(eng.exe["engine_driver"], root, ck.seed, i) for i in range(12 if quick else 120)]))
    class_cases(ck, eng, 6 if quick else 16, 24 if quick else 300, 150 if quick else 400)
