"""Saving and loading restores the same values"""
import os
import shutil

import numpy as np

import full
import gen
import lib
import ref
import robots as rob
import yamlio
from checks.c11 import tol_of

RULE = ("Robots and generated classes hold random and extreme values (smallest, largest, negative, not representable in decimal), save them in every format and the files are read back, by the "
        "same kind of object and by the others, and parsed independently: values, other parameters, function values and second saves are compared bit by bit. Damaged files (missing, "
        "directories, truncated, wrong types, sizes or keys) are loaded too: an error must be reported, the program goes on, a good file loads afterwards. Distinct: robots, formats and faults differ.")

EXTREME = [5e-324, 2.2250738585072014e-308, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-300, -1e300, 1 / 3, -2 / 3, 0.1, 1 + 2 ** -52,
           1 - 2 ** -53, 123456789.12345679, -1e22, 1e16, 9007199254740993.0, 0.0, 1.0, -1.0, 100000.0, 1e-5, 1234567.0, 3.0e-10, 2.5, 16777217.0, np.pi, -np.e]


def draw(r, k):
    """k values of every magnitude"""
    out = []
    for _ in range(k):
        c = r.integers(4)
        if c == 0:
            out.append(EXTREME[int(r.integers(len(EXTREME)))])
        elif c == 1:
            out.append(float(r.normal() * 10.0 ** r.integers(-12, 12)))
        elif c == 2:
            out.append(float((-1) ** r.integers(2) * r.uniform(1, 10) * 10.0 ** r.integers(-290, 290)))
        else:
            out.append(float(r.uniform(-5, 5)))
    return np.array(out, float)


def groups_args(rb):
    return [full.ARG[g] for g in full.groups(rb)] + ["par_REG"] + ([x for x in ("par_K", "par_D", "par_Dm", "par_Mm") if rb["ELASTIC"] and x not in [full.ARG[g] for g in full.groups(rb)]])


def conf_of(r, rb, wild):
    """robot with other values, extreme ones when wild"""
    vals = {}
    for g in full.groups(rb):
        if g == "gravity" and rb["gravity"] is None:
            continue
        vals[g] = draw(r, len(rob.full_values(rb, g))) if wild else full.draw_group(r, rb, g)
    return full.merge(rb, vals)


def write(path, text):
    with open(path, "w") as f:
        f.write(text)
    return path


class Eng:
    """script for the model with dumps of everything that can be saved"""

    def __init__(self, rb):
        self.rb, self.sc, self.names = rb, lib.Script(), groups_args(rb)
        self.jobs = []

    def dump(self, x):
        d = {a: self.sc.add("arg", x, a) for a in self.names}
        d["q"] = self.sc.add("arg", x, "q")
        d["getdyn"] = self.sc.add("getdyn", x)
        d["getreg"] = self.sc.add("getreg", x)
        return d

    def same(self, a, b, what, only=None):
        self.jobs.append(("same", a, b, what, only))

    def ret(self, i, v, what):
        self.jobs.append(("ret", i, v, what))


def judge(c, res, jobs, label):
    cr = res.crash()
    if cr:
        c.bad(label + cr[0], cr[1])
    N = len(res.rec)
    for j in jobs:
        if j[0] == "ret":
            if j[1] < N:
                c.eq(label + "return", res[j[1]], ("OK", j[2]), j[3])
        elif j[0] == "val":
            if j[1] < N:
                v = res.val(j[1])
                c.num(label + "value", None if v is None else v.ravel(), j[2], j[4] if len(j) > 4 else 0, j[3])
        elif j[0] == "same":
            for k in j[1]:
                if (j[4] is None or k in j[4]) and j[1][k] < N and j[2][k] < N and res.val(j[1][k]) is not None:
                    c.same(label + "value", res.val(j[2][k]), res.val(j[1][k]), "%s: %s" % (j[3], k))
        elif j[0] == "file":        # values of a flat file
            y = yamlio.load(j[1])
            if not c.true(label + "file", isinstance(y, dict), j[3] + ": not written or not a mapping"):
                continue
            for k, i in j[2].items():
                if i < N and res.val(i) is not None:
                    try:
                        got = yamlio.nums(y.get(k, "missing")) if isinstance(y.get(k), list) else None
                    except ValueError:
                        got = None
                    c.same(label + "file", None if got is None else np.array(got), res.val(i).ravel(), "%s: %s in the file" % (j[3], k))
            if j[4]:
                c.eq(label + "file", sorted(k for k in y if y[k] or k in j[2]), sorted(j[2]), j[3] + ": names in the file")
        elif j[0] == "inert":
            y = yamlio.inertial(j[1], j[2])
            if c.true(label + "file", y is not None, j[4] + ": not written or not an inertial file"):
                c.same(label + "file", np.array(y[1]).ravel(), np.asarray(j[3]() if callable(j[3]) else j[3], float), j[4] + ": values in the file")
        elif j[0] == "bytes":
            a, b = (open(p, "rb").read() if os.path.isfile(p) else None for p in j[1:3])
            c.true(label + "again", a is not None and a == b, j[3] + ": saving what was loaded does not give the same file")


# ------------------------------------------------------------------ damaged files
def damage(r, text, kind):
    """damaged text; what is left may be valid when kind is cut, noise or scalar"""
    if kind == "noise":
        b = bytearray(text.encode())
        for _ in range(int(r.integers(1, 6))):
            b[int(r.integers(len(b)))] = int(r.integers(1, 127))
        return b.decode("latin1")
    if kind == "cut":
        return text[:int(r.integers(len(text)))]
    if kind == "syntax":
        return text + "\nbroken: [1, 2\n"
    if kind == "scalar":
        return "just text"
    raise ValueError(kind)


def class_fault(r, rb, path, texts, missing):
    """writes a damaged file for a generated class; (operation, file, kind of damage, damaged field)"""
    fld = None
    op = ["loadconf", "loadconf", "loadreg"][int(r.integers(3))]
    kind = ["missing", "dir", "syntax", "cut", "noise", "type", "short", "long", "key"][int(r.integers(9))]
    p, t = path, texts[op]
    if kind == "missing":
        p = missing
    elif kind == "dir":
        os.makedirs(p)
    elif kind == "type":
        write(p, t.replace("mass: ", "mass: heavy"))
    elif kind == "key":
        write(p, t.replace("mass: ", "mss: "))
    elif kind in ("short", "long"):
        if op == "loadreg":
            op, t = "loadconf", texts["loadconf"]
        z = dict(rb)
        fld = ["DH", "base", "ee", "gravity", "Dl", "K", "D", "Dm"][int(r.integers(8))]
        if fld == "gravity" and rb["gravity"] is None or (fld in ("Dl", "K", "D", "Dm") and (not rb[fld + "_order"] or (fld != "Dl" and not rb["ELASTIC"]) or kind == "long" or not rb[fld])):
            fld = "DH"
        if fld in ("Dl", "K", "D", "Dm"):
            z[fld] = [x[:-1] for x in rb[fld]]
            t = rob.to_yaml(z)
        elif fld in ("base", "ee"):
            z[fld] = rb[fld][:-1] if kind == "short" else rb[fld] + [1.5] * int(r.integers(1, 20))
            t = rob.to_yaml(z)
        elif fld == "gravity":
            z[fld] = rb[fld][:-1] if kind == "short" else rb[fld] + [1.5] * 20
            t = rob.to_yaml(z)
        else:
            v = rb["DH"][:-1] if kind == "short" else rb["DH"] + [.5] * int(r.integers(1, 40))
            t = t.replace("  DH: [", "  DH: " + rob.seq(v) + "\n  unused: [")
        write(p, t)
    else:
        write(p, damage(r, t, kind))
    return op, p, kind, fld


def engine_case(exe, root, seed, idx):
    r = rob.rng_of("c15", seed, idx)
    cwd = os.path.join(root, "c%d" % idx)
    os.makedirs(cwd)
    P = lambda n: os.path.join(cwd, n)
    Q = rob.picker(seed, idx)
    rb0 = rob.make_robot(seed, idx, n=10 if idx % 160 == 18 else Q("n", [1, 2, 3]), elastic=Q("elastic", [0, 2, 1, 3]), orders=Q("orders", [[1, 1, 1], [2, 0, 1], [3, 2, 2], [0, 1, 0], [11, 10, 12]]),
                         dl=Q("Dl", [2, 0, 1, 4, 11]), sym=Q("masks", [None, "full", None, "none"]))
    wild = Q("wild", [True, False, False])
    rb = conf_of(r, rb0, wild)
    comp = 0 if wild and idx % 2 else 1
    conf = write(P("robot.yaml"), rob.to_yaml(rb, comments=idx % 2, surplus=(idx // 5) % 3))
    E = Eng(rb)
    sc = E.sc
    E.ret(sc.add("new", "r", "rob", conf, comp), 1, "construction")
    d0 = E.dump("r")
    # what was read is what the file holds
    masks = {full.ARG[g]: np.array(rb["symb"][g], bool) for g in full.groups(rb)}
    for g in full.groups(rb):
        v = np.array(rob.full_values(rb, g))
        E.jobs.append(("val", d0[full.ARG[g]], v[masks[full.ARG[g]]] if comp else v, "%s read from the configuration" % full.ARG[g]))
    E.jobs.append(("val", d0["getdyn"], np.array(rob.full_values(rb, "dyn")), "inertial parameters read from the configuration"))
    # --- configuration
    E.ret(sc.add("saveconf", "r", P("c1.yaml")), 1, "save_conf")
    E.same(d0, E.dump("r"), "after save_conf")
    i1 = sc.add("info", "r")
    E.ret(sc.add("new", "s", "rob", P("c1.yaml"), comp), 1, "construction from the saved configuration")
    i2 = sc.add("info", "s")
    E.same(d0, E.dump("s"), "robot built from the saved configuration")
    sc.add("saveconf", "s", P("c2.yaml"))
    E.jobs.append(("bytes", P("c1.yaml"), P("c2.yaml"), "save_conf"))
    E.ret(sc.add("loadconf", "s", P("c1.yaml")), 1, "load_conf_par of the saved configuration")
    E.same(d0, E.dump("s"), "after loading the saved configuration again")
    sc.add("newp" if idx % 2 else "newyaml", "t", P("c1.yaml"))
    sc.add("loadconf", "t", P("c1.yaml"))
    iv = {g: sc.add("arg", "t", full.ARG[g]) for g in full.groups(rb)}
    for g, i in iv.items():
        E.jobs.append(("val", i, np.array(rob.full_values(rb, g)), "%s of a robot built from the saved configuration" % full.ARG[g]))
    # --- other values, state of the robot to save
    for g in full.groups(rb):
        a = full.ARG[g]
        k = int(masks[a].sum()) if comp else masks[a].size
        sc.add("set", "r", a, lib.vec(draw(r, k)))
    sc.add("set", "r", "q", lib.vec(draw(r, rb["n"])))
    R = draw(r, 10 * rb["n"]).reshape(-1, 10)
    yamlio.write_inertial(P("in.yaml"), R, yamlio.REG)
    E.jobs.append(("val", sc.add("loadreg", "r", P("in.yaml"), 0), R.ravel(), "load_par_REG"))
    d1 = E.dump("r")
    E.jobs.append(("val", d1["par_REG"], R.ravel(), "par_REG after load_par_REG"))
    # --- all parameters
    E.ret(sc.add("savepar", "r", P("p1.yaml")), 1, "save_par")
    E.same(d1, E.dump("r"), "after save_par")
    E.jobs.append(("file", P("p1.yaml"), {a: d1[a] for a in E.names}, "save_par", True))
    sc.add("new", "f", "rob", conf, comp)
    E.ret(sc.add("loadpar", "f", P("p1.yaml")), 1, "load_par")
    E.same(d1, E.dump("f"), "after save_par and load_par", E.names + ["getreg", "getdyn"])
    sc.add("savepar", "f", P("p2.yaml"))
    E.jobs.append(("bytes", P("p1.yaml"), P("p2.yaml"), "save_par"))
    E.ret(sc.add("loadpar", "f", P("p1.yaml")), 1, "load_par again")
    E.same(d1, E.dump("f"), "after loading the parameters again", E.names)
    # --- some of them
    pick = [a for a in E.names + ["q"] if r.random() < .5] or ["par_REG"]
    E.ret(sc.add("savepar", "r", P("p3.yaml"), lib.lst(pick)), 1, "save_par of some")
    E.jobs.append(("file", P("p3.yaml"), {a: d1[a] for a in pick}, "save_par of some", True))
    sub = [a for a in pick if r.random() < .6] or pick[:1]
    sc.add("new", "g", "rob", conf, comp)
    dg = E.dump("g")
    E.ret(sc.add("loadpar", "g", P("p3.yaml"), lib.lst(sub)), 1, "load_par of some")
    d2 = E.dump("g")
    E.same(d1, d2, "loaded by load_par of some", sub)
    E.same(dg, d2, "not loaded by load_par of some", [a for a in E.names + ["q"] if a not in sub])
    # --- regressor parameters
    E.ret(sc.add("savereg", "r", P("r1.yaml")), 1, "save_par_REG")
    E.same(d1, E.dump("r"), "after save_par_REG")
    E.jobs.append(("inert", P("r1.yaml"), yamlio.REG, R.ravel(), "save_par_REG"))
    sc.add("new", "h", "rob", conf, comp)
    dh = E.dump("h")
    E.jobs.append(("val", sc.add("loadreg", "h", P("r1.yaml"), 0), R.ravel(), "load_par_REG of the saved file"))
    d3 = E.dump("h")
    E.same(d1, d3, "par_REG after save and load", ["par_REG", "getreg"])
    E.same(dh, d3, "after load_par_REG without conversion", [a for a in E.names + ["q", "getdyn"] if a != "par_REG"])
    sc.add("savereg", "h", P("r2.yaml"))
    E.jobs.append(("bytes", P("r1.yaml"), P("r2.yaml"), "save_par_REG"))
    # --- damaged files
    faults = []
    texts = {"loadconf": rob.to_yaml(rb), "loadpar": None, "loadreg": open(P("in.yaml")).read()}
    yamlio_par = "".join("par_REG: [%s]\n" % ", ".join(repr(float(x)) for x in R.ravel()))
    texts["loadpar"] = yamlio_par
    for k in range(8):
        op = ["loadconf", "loadpar", "loadreg"][int(r.integers(3))]
        kind = ["missing", "dir", "syntax", "scalar", "cut", "noise", "type", "short", "key"][int(r.integers(9))]
        p = P("bad%d.yaml" % k)
        t = texts[op]
        sure = kind not in ("cut", "noise")
        if kind == "missing":
            p = P("no_such_dir/x.yaml")
        elif kind == "dir":
            os.makedirs(p)
        elif kind == "type":
            t = t.replace("mass: ", "mass: heavy") if op != "loadpar" else t.replace("[", "[x")
            write(p, t)
        elif kind == "short":
            if op == "loadpar":
                t = "par_REG: [1, 2]\n"
            elif op == "loadconf" and rb["Dl_order"]:
                t = rob.to_yaml(dict(rb, Dl=[x[:-1] for x in rb["Dl"]]))
            else:
                t, sure = damage(r, t, "cut"), False
            write(p, t)
        elif kind == "key":
            t = t.replace("mass: ", "mss: ") if op != "loadpar" else t.replace("par_REG", "par_nothing")
            write(p, t)
        else:
            write(p, damage(r, t, kind))
            sure = sure and kind != "scalar"
        faults.append((op, kind))
        x = ["f", "h", "s"][int(r.integers(3))]
        a = E.dump(x)
        i = sc.add(op, x, p)
        b = E.dump(x)
        E.jobs.append(("fault", op, kind, sure, i, a, b))
        E.ret(sc.add("loadpar", x, P("p1.yaml")), 1, "load_par after a failed %s" % op)
        E.same(d1, E.dump(x), "good file after a damaged one", E.names)
    # saving where it cannot be saved
    impossible = [P("no_such_dir/x.yaml"), P("a_dir.yaml"), "/dev/full"]
    os.mkdir(P("a_dir.yaml"))
    for w in ("saveconf", "savereg", "savepar"):
        for t in impossible:
            E.ret(sc.add(w, "r", t), 0, "%s to an impossible path (%s)" % (w, os.path.basename(t)))
    for k in (0, 1):
        t = [P("in_dyn.yaml"), P("in_reg.yaml")]
        t[k] = impossible[int(r.integers(3))]
        E.ret(sc.add("inertial", "rob", rb["n"], conf, *t), 0, "inertial files with an impossible path (%s)" % os.path.basename(t[k]))
    E.same(d1, E.dump("r"), "after saving to an impossible path")
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    judge(c, res, E.jobs, "model:")
    N = len(res.rec)
    if i2 < N:
        c.eq("model:info", res[i2], res[i1], "robot built from the saved configuration")
    for j in E.jobs:
        if j[0] != "fault" or max(j[6].values()) >= N:
            continue
        _, op, kind, sure, i, a, b = j
        failed = res[i] == ("OK", 0) if op != "loadreg" else None
        what = "%s of a damaged file (%s)" % (op, kind)
        if op == "loadreg":
            c.true("model:fault", res[i][0] in ("V", "EXC"), what + " gave %s" % (res[i],))
        else:
            c.true("model:fault", res[i] in (("OK", 0), ("OK", 1)), what + " gave %s" % (res[i],))
        if sure and op != "loadreg":
            c.true("model:fault", failed, what + " reports no error: %s" % (res[i],))
        if failed or (op == "loadreg" and sure):
            for k in a:
                if res.val(a[k]) is not None:
                    c.same("model:fault", res.val(b[k]), res.val(a[k]), "%s: %s changed by a failed load" % (what, k))
    if any(f[0] == "loadreg" and f[1] in ("missing", "dir", "syntax", "type", "key") for f in faults) and not res.crash():
        c.true("model:fault", "rror" in res.err, "no error reported for a damaged file of load_par_REG")
    shutil.rmtree(cwd) if not c.fail else None
    return dict(fail=c.fail, obs=c.n, sig="model" + repr((rob.signature(rb), faults)), worst={}, count={"round_trips": 9, "faults": len(faults) + 3},
                sample=dict(types=rb["types"], faults=faults, some_values=[float(x) for x in R.ravel()[:6]]) if idx % 9 == 3 else None,
                files={"robot.yaml": rob.to_yaml(rb), "script": "\n".join(sc.lines)} if c.fail else {})


# ------------------------------------------------------------------ generated classes
def class_part(ck, eng, nrob, rounds):
    def kw(i):
        Q = rob.picker(ck.seed, i)
        return dict(elastic=Q("elastic", [2, 0, 1, 3]), orders=Q("orders", [[1, 1, 1], [2, 0, 1], [3, 2, 2]]), dl=Q("Dl", [2, 0, 1]), inert=0, sym=Q("masks", [None, "full", None, "none"]))
    specs = [(n, conf_of(rob.rng_of("c15r", ck.seed, n), rb, False)) for n, rb in gen.spec_list(ck, nrob, 3, "w", kw)]
    specs.insert(0, ("wbig", rob.planar(ck.seed, 15001, 10, elastic=1, orders=[10, 1, 2], dl=10)))
    fl = gen.Fleet(ck, eng, specs, flavour="glib", tag="fleet")
    fl.report_problems()
    exe = eng.exe["engine_driver"]
    WP = [w for w, _ in gen.CLASS_PARAMS.values()] + ["par_REG"]
    KEY = {"par_DHtable": "DHtable", "par_world2L0": "world2L0", "par_Ln2EE": "Ln2EE", "par_gravity": "gravity"}

    def one(a):
        d, k = a
        rb, n = d["rb"], d["rb"]["n"]
        r = rob.rng_of("c15w", ck.seed, d["name"], k)
        cwd = os.path.join(d["cwd"], "k%d" % k)
        os.makedirs(cwd)
        P = lambda x: os.path.join(cwd, x)
        sc, jobs = lib.Script(), []
        dump = lambda x: {w: sc.add(x, "par", w) for w in WP}
        clsconf = fl.conf_of(d)
        sc.add("new", "o", d["name"])
        sc.add("o", "loadconf", clsconf)
        d0 = dump("o")
        from checks.c14 import Cls
        base = Cls(d, (clsconf, rb)).par
        for w in base:
            jobs.append(("val", d0[w], base[w], w + " after load_conf"))
        sc.add("o", "loadconf", clsconf)
        jobs.append(("same", d0, dump("o"), "after loading the configuration again", None))
        # the source file and the written configuration mean the same
        sc.add("new", "a", d["name"])
        sc.add("a", "loadconf", d["conf"])
        jobs.append(("same", d0, dump("a"), "configuration written by the command line against its source", None))
        # another configuration
        alt = conf_of(r, rb, k % 2 == 0)
        ap = write(P("alt.yaml"), rob.to_yaml(alt, surplus=k % 3))
        sc.add("a", "loadconf", ap)
        da = dump("a")
        base = Cls(d, (ap, alt)).par
        for w in base:
            jobs.append(("val", da[w], base[w], w + " after load_conf of other values"))
        # the flags of the file are those of a model to generate, not of this one
        from checks.c14 import other_flags
        sc.add("a", "loadconf", write(P("flags.yaml"), rob.to_yaml(other_flags(r, alt), surplus=k % 3)))
        jobs.append(("same", da, dump("a"), "file with other symbolic flags", None))
        # an instance without a file holds as many values and takes them
        sc.add("new", "z", d["name"])
        for w in base:
            sc.add(*(("z", "setf", w, lib.vec(base[w]), 0) if w == "par_DYN" else ("z", "set", w, lib.vec(base[w]))))
        dz = dump("z")
        for w in base:
            jobs.append(("val", dz[w], base[w], w + " set before load_conf"))
        # extreme values
        st = {}
        for w in base:
            st[w] = draw(r, base[w].size)
            sc.add(*(("o", "setf", w, lib.vec(st[w]), 0) if w == "par_DYN" else ("o", "set", w, lib.vec(st[w]))))
        R = draw(r, 10 * n)
        st["par_REG"] = R
        sc.add("o", "setf", "par_REG", lib.vec(R), 0)
        d1 = dump("o")
        for w in st:
            jobs.append(("val", d1[w], st[w], w + " as set"))
        jobs.append(("ret", sc.add("o", "savepar", P("p.yaml")), 1, "save_par"))
        sc.add("o", "savereg", P("r.yaml"))
        sc.add("o", "savedyn", P("d.yaml"))
        jobs.append(("same", d1, dump("o"), "after saving", None))
        jobs.append(("file", P("p.yaml"), {KEY.get(w, w): d1[w] for w in WP}, "save_par", True))
        jobs.append(("inert", P("r.yaml"), yamlio.REG, R, "save_par_REG"))
        jobs.append(("inert", P("d.yaml"), yamlio.DYN, st["par_DYN"], "save_par_DYN"))
        # read back
        sc.add("new", "b", d["name"])
        sc.add("b", "loadconf", clsconf)
        jobs.append(("val", sc.add("b", "loadreg", P("r.yaml"), 0), R, "load_par_REG of the saved file"))
        d2 = dump("b")
        jobs.append(("same", d1, d2, "save_par_REG and load_par_REG", ["par_REG", "par_Dl"]))
        jobs.append(("same", d0, d2, "not loaded by load_par_REG", [w for w in WP if w not in ("par_REG", "par_Dl")]))
        sc.add("b", "savereg", P("r2.yaml"))
        jobs.append(("bytes", P("r.yaml"), P("r2.yaml"), "save_par_REG"))
        sc.add("b", "loadconf", P("d.yaml"), 0)
        d3 = dump("b")
        jobs.append(("same", d1, d3, "save_par_DYN and load_conf", ["par_DYN", "par_Dl", "par_REG"]))
        jobs.append(("same", d0, d3, "not in the file of save_par_DYN", [w for w in WP if w not in ("par_REG", "par_Dl", "par_DYN")]))
        sc.add("b", "savedyn", P("d2.yaml"))
        jobs.append(("bytes", P("d.yaml"), P("d2.yaml"), "save_par_DYN"))
        # file of regressor parameters of the model, and of the command line
        se, ej = lib.Script(), []
        se.add("new", "r", d["name"], d["conf"], 0)
        yamlio.write_inertial(P("in.yaml"), R.reshape(-1, 10)[:, ::-1], yamlio.REG)
        R2 = R.reshape(-1, 10)[:, ::-1].ravel()
        se.add("loadreg", "r", P("in.yaml"), 0)
        se.add("savereg", "r", P("m.yaml"))
        e0 = {x: se.add("arg", "r", x) for x in groups_args(rb)}
        se2, ej2 = lib.Script(), []
        rm = lib.run_script(exe, se, cwd, "m1")
        sc.add("b", "loadreg", P("m.yaml"), 0)
        d4 = dump("b")
        jobs.append(("val", d4["par_REG"], R2, "regressor parameters saved by the model"))
        jobs.append(("same", d3, d4, "not in the file of the model", [w for w in WP if w != "par_REG"]))
        sc.add("b", "loadconf", clsconf)
        sc.add("b", "loadreg", os.path.join(d["folder"], d["name"] + "_par_REG.yaml"))
        d5 = dump("b")
        D = np.array(rob.full_values(rb, "dyn"))
        jobs.append(("val", d5["par_REG"], ref.dyn_to_reg(D), "par_REG of the file of the command line", tol_of(D)[1]))
        jobs.append(("val", d5["par_DYN"], D, "par_DYN of the file of the command line", tol_of(D)[0]))
        jobs.append(("same", d0, d5, "file of the command line", ["par_Dl", "par_DHtable", "par_K"]))
        # damaged files
        faults = []
        texts = {"loadconf": rob.to_yaml(rb), "loadreg": open(P("in.yaml")).read()}
        for m in range(6):
            op, p, kind, fld = class_fault(r, rb, P("bad%d.yaml" % m), texts, P("no_such_dir/x.yaml"))
            faults.append((op, kind) + ((fld,) if kind in ("short", "long") else ()))
            sc.add("b", op, p)
            sc.add("b", "loadconf", clsconf, 0)
            sc.add("b", "loadreg", P("r.yaml"), 0)
            sc.add("b", "loadconf", clsconf, 0)
            if kind not in ("cut", "noise"):        # those may hold other, valid, values
                dd = dump("b")
                jobs.append(("same", d0, dd, "good file after a damaged one (%s, %s)" % (op, kind), [w for w in WP if w not in ("par_REG", "par_Dl")] + (["par_Dl"] if rb["Dl_order"] else [])))
                jobs.append(("val", dd["par_REG"], R, "par_REG of a good file after a damaged one"))
            else:
                sc.add("new", "b", d["name"])
                sc.add("b", "loadconf", clsconf)
        os.mkdir(P("a_dir.yaml"))
        impossible = [P("no_such_dir/x.yaml"), P("a_dir.yaml"), "/dev/full"]
        for w in ("savereg", "savedyn", "savepar"):
            for t in impossible:
                j = sc.add("o", w, t)
                if w == "savepar":
                    jobs.append(("ret", j, 0, "save_par to an impossible path (%s)" % os.path.basename(t)))
        jobs.append(("same", d1, dump("o"), "after saving to an impossible path", None))
        res = fl.run(d, sc, "k%d" % k)
        c = lib.Cmp()
        judge(c, res, jobs, "class:")
        for t in impossible:
            c.true("class:fault", "saved on path: " + t not in res.out, "reports that %s is saved" % t)
        sure = sum(1 for f in faults if f[1] not in ("cut", "noise", "dir"))      # a directory reads as a file without sections
        if not res.crash():
            c.true("class:fault", res.err.count("rror") >= sure, "errors reported: %d, damaged files loaded: %d %s" % (res.err.count("rror"), sure, faults))
        # the model reads what the class wrote
        se2.add("new", "r", d["name"], d["conf"], 0)
        ej2.append(("val", se2.add("loadreg", "r", P("r.yaml"), 0), R, "load_par_REG of the file of the class"))
        ej2.append(("val", se2.add("arg", "r", "par_REG"), R, "par_REG of the file of the class"))
        if rb["Dl_order"]:
            ej2.append(("val", se2.add("arg", "r", "par_Dl"), st["par_Dl"], "par_Dl of the file of the class"))
        com = [w for w in ("par_REG", "par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm") if w in groups_args(rb)]
        se2.add("new", "s", d["name"], d["conf"], 0)
        ej2.append(("ret", se2.add("loadpar", "s", P("p.yaml"), lib.lst(com)), 1, "load_par of the file of the class"))
        for w in com:
            ej2.append(("val", se2.add("arg", "s", w), st[w], w + " of the file of the class"))
        se2.add("new", "t", d["name"], d["conf"], 0)
        ej2.append(("ret", se2.add("loadconf", "t", P("d.yaml"), 0), 1, "load_conf_par of the file of the class"))
        ej2.append(("val", se2.add("getdyn", "t"), st["par_DYN"], "par_DYN of the file of the class"))
        if rb["Dl_order"]:
            ej2.append(("val", se2.add("arg", "t", "par_Dl"), st["par_Dl"], "par_Dl of the file of the class (DYN)"))
        r2 = lib.run_script(exe, se2, cwd, "m2")
        judge(c, r2, ej2, "cross:")
        judge(c, rm, ej, "cross:")
        return dict(fail=c.fail, obs=c.n, sig="class" + repr((rob.signature(rb), faults)), worst={}, count={"round_trips": 9, "faults": len(faults) + 3, "class_rounds": 1},
                    files={d["name"] + ".yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    good = fl.good()
    ck.take(lib.par(one, [(d, k) for d in good for k in range(rounds)]))


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(engine_case, [(eng.exe["engine_driver"], root, ck.seed, i) for i in range(160 if quick else 3000)]))
    class_part(ck, eng, 7 if quick else 20, 12 if quick else 120)
