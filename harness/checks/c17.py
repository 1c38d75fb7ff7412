"""Memory errors, undefined behaviour and uninitialised memory"""
import hashlib
import os
import re
import subprocess

import full
import gen
import lib
import robots as rob
import yamlio
from checks import c14, c15

RULE = ("The model, the command line program, generated classes and the conversion program are compiled with AddressSanitizer and UndefinedBehaviorSanitizer (Eigen and libstdc++ assertions "
        "included) and run on random robots of every kind through building, evaluating every function, histories with calls of wrong dimension, saving, loading good and damaged files, "
        "generating and using the class. The same scripts are run without sanitizers with differently filled heap and stack memory, and with optimization: every record and file must be identical. Distinct: robots "
        "and histories differ.")

MEM = re.compile(r"(asan:|ubsan|crash|assert|hang)")
FILL = [("plain", {"MALLOC_PERTURB_": "0"}), ("pattern", {"MALLOC_PERTURB_": "171"}), ("zero", {"MALLOC_PERTURB_": "85"}), ("opt", {"MALLOC_PERTURB_": "0"})]


def kinds(i):
    """robots of every kind"""
    k = [dict(), dict(elastic=2), dict(elastic=1, orders=[0, 0, 0]), dict(elastic=3), dict(elastic=0, dl=0, sym="none"), dict(elastic=1, types=["R", "P"], n=2, orders=[1, 1, 1]),
         dict(elastic=2, sym="full"), dict(elastic=0, grav=2), dict(elastic=2, sym="none", grav=2), dict(elastic=2, orders=[3, 4, 2], dl=5)][i % 10]
    if "n" not in k:
        k["n"] = rob.picker(0, i)("n", [1, 2, 3])
    return k


def only_memory(x):
    if "fail" in x:
        x = dict(x, fail=[f for f in x["fail"] if MEM.search(f[0])], worst={})
    return x


def pipeline(sc, r, rb, x, conf, cwd, funs):
    """every operation of the model on one robot"""
    v = lambda k: lib.vec(r.normal(0, 1, k))
    sc.add("new", x, "rob" + x, conf)
    sc.add("info", x)
    n, e = rb["n"], rb["nej"]
    for a in ("q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr"):
        sc.add("set", x, a, v(n))
    for a in ("x", "dx", "ddx", "ddxr"):
        sc.add("setn", x, a, v(e))
        sc.add("setn", x, a, v(e + 1))
    for f in funs:
        sc.add("get", x, f)
    for a in ("q", "dq", "dqr", "ddqr", "par_DYN", "par_REG", "x"):
        for k in (0, 1, n - 1, n + 1, 10 * n + 1, 1000):
            if k >= 0:
                sc.add("setn", x, a, v(k))
                sc.add("set", x, a, v(k))
    for a in c15.groups_args(rb) + ["w", "nothing_of_that_name"]:
        sc.add("arg", x, a)
        for k in (0, 1, 5, 200):
            if a != "nothing_of_that_name":
                sc.add("set", x, a, v(k))
        sc.add("arg", x, a)
    for w in ("saveconf", "savereg", "savepar"):
        sc.add(w, x, os.path.join(cwd, w + x + ".yaml"))
    sc.add("savepar", x, os.path.join(cwd, "some%s.yaml" % x), lib.lst(["par_REG", "par_DHtable"]))
    sc.add("loadpar", x, os.path.join(cwd, "savepar%s.yaml" % x))
    sc.add("loadpar", x, os.path.join(cwd, "savepar%s.yaml" % x), lib.lst(["nothing", "par_REG"]))
    sc.add("loadreg", x, os.path.join(cwd, "savereg%s.yaml" % x))
    sc.add("loadconf", x, os.path.join(cwd, "saveconf%s.yaml" % x))
    sc.add("updDYN", x)
    sc.add("updREG", x)
    sc.add("obtain", x, lib.lst(["q"]), lib.lst(["par_DYN", "par_nothing", "par_gravity"]))
    sc.add("addfun", x, "mine", 1, "mine", lib.lst(["q", "dq"]), "mul T m q m dq")
    sc.add("addfun", x, "mine2", 0, "mine", lib.lst(["q", "par_DYN"]), "m T_1")
    sc.add("get", x, "mine")
    sc.add("copy", x + "c", x)
    sc.add("del", x)
    for f in funs[:6]:
        sc.add("get", x + "c", f)
    sc.add("assign", x + "c", x + "c")
    d = os.path.join(cwd, "lib" + x)
    os.makedirs(d, exist_ok=True)
    sc.add("gen", x + "c", d + "/", "made", 1)
    sc.add("inertial", "rob", n, conf, os.path.join(cwd, "gd%s.yaml" % x), os.path.join(cwd, "gr%s.yaml" % x))
    sc.add("inertial", "rob", n, "/nonexistent.yaml", os.path.join(cwd, "gd.yaml"), os.path.join(cwd, "gr.yaml"))


def make_case(root, seed, idx, tag, steps):
    r = rob.rng_of("c17", seed, idx, tag)
    cwd = os.path.join(root, "%s%d" % (tag, idx))
    os.makedirs(cwd)
    rbs = []
    for k in range(2):
        kw = kinds(idx * 3 + k)
        if k and idx % 8 == 5:              # a long chain
            n = 11 + (idx // 8) % 6
            kw.update(n=n, types=[("P", "R")[j in (2, n - 1)] + ("_SEA" if idx % 3 and j % 3 else "") for j in range(n)])
        rb = rob.make_robot(seed, idx * 5 + k, **kw)
        if rb["Dl_order"] and idx % 4 == 1:
            rb["no_friction"] = [0]
        p = os.path.join(cwd, "r%d.yaml" % k)
        with open(p, "w") as f:
            f.write(rob.to_yaml(rb, comments=idx % 2, surplus=idx % 3))
        rbs.append((rb, p, sorted(full.expect(rb, rob.states(rb, 0, 0, 1))[0])))
    sc = lib.Script()
    hist = []
    if not rbs[0][0].get("no_friction") and not rbs[1][0].get("no_friction"):
        hist = c14.engine_history(sc, r, rbs, steps)[3]
    for k, (rb, p, funs) in enumerate(rbs):
        pipeline(sc, r, rb, "p%d" % k, p, cwd, funs)
    return cwd, rbs, sc, hist


def snapshot(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith((".script", ".records")):
                p = os.path.join(a, f)
                out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def san_case(exe, root, seed, idx, steps):
    cwd, rbs, sc, hist = make_case(root, seed, idx, "s", steps)
    res = lib.run_script(exe, sc, cwd, timeout=300)
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad("model:" + cr[0], "%s: %s" % ([x[0]["types"] for x in rbs], cr[1]))
    c.n = len(res.rec)
    return dict(fail=c.fail, obs=c.n, sig=repr([rob.signature(x[0]) for x in rbs]) + " ".join(hist), sample=dict(robots=[x[0]["types"] for x in rbs], history=hist[:15], operations=len(sc.lines)) if idx % 9 == 2 else None,
                count={"sanitized_operations": len(res.rec)}, files={"robot%d.yaml" % k: open(x[1]).read() for k, x in enumerate(rbs)} | {"script": "\n".join(sc.lines), "stderr": res.err[:20000]} if c.fail else {})


def compare(c, runs, label, sc):
    base = runs[0]
    for fill, res, snap in runs:
        cr = res.crash()
        if cr:
            c.bad("%s:%s" % (label, cr[0]), "memory filled as %s: %s" % (fill, cr[1]))
    for fill, res, snap in runs[1:]:
        for i in range(min(len(res.rec), len(base[1].rec))):
            a, b = base[1][i], res[i]
            c.n += 1
            same = a[0] == b[0] and (a[1].shape == b[1].shape and a[1].tobytes() == b[1].tobytes() if a[0] == "V" else a[1] == b[1])
            if not same:
                c.bad(label + ":fill", "'%s' depends on what memory held before or on optimization: %s / %s" % (sc.lines[i][:200], str(a[1])[:300], str(b[1])[:300]))
                break
        for f in base[2]:
            c.n += 1
            if snap.get(f) != base[2][f]:
                c.bad(label + ":fill", "file %s depends on what memory held before or on optimization" % f)
                break


def fill_case(exes, root, seed, idx, steps):
    cwd, rbs, sc, hist = make_case(root, seed, idx, "f", steps)
    runs = []
    for k, env in FILL:
        res = lib.run_script(exes[k], sc, cwd, env=dict(lib.ENV, **env))
        runs.append((k + str(env), res, snapshot(cwd)))
    c = lib.Cmp()
    compare(c, runs, "model", sc)
    return dict(fail=c.fail, obs=c.n, sig="fill" + repr([rob.signature(x[0]) for x in rbs]), worst={}, count={"fill_runs": len(FILL)},
                files={"robot%d.yaml" % k: open(x[1]).read() for k, x in enumerate(rbs)} | {"script": "\n".join(sc.lines)} if c.fail else {})


def class_script(sc, r, d, conf, cwd):
    """every method of a generated class, with right and wrong dimensions"""
    x = "z"
    n = d["rb"]["n"]
    v = lambda k: lib.vec(r.normal(0, 1, k))
    sc.add("new", x, d["name"])
    sc.add(x, "info")
    pars = [w for w, _ in gen.CLASS_PARAMS.values()] + ["par_REG"]
    for w in pars:
        sc.add(x, "par", w)

    def evaluate(y):
        for f in d["funs"]:
            sc.add(y, "get", f)
    evaluate(x)
    sc.add(x, "loadconf", conf)
    evaluate(x)
    for w in pars + ["q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w"]:
        for k in (0, 1, 2, 3, 4, 6, n, n + 1, 10 * n, 10 * n - 1, 300):
            sc.add(x, "set", w, v(k))
    for a in range(4):
        sc.add(x, "setArguments", *[v(n if b != a else n + 1 + b) for b in range(4)])
    for a, b in ((n, 4), (4, n), (1, 1), (0, 0), (n + 1, 4), (50, 4)):
        sc.add(x, "setDH", lib.matx(r.normal(0, 1, (a, b))) if a * b else "0 0")
    for w in ("savereg", "savedyn", "savepar"):
        sc.add(x, w, os.path.join(cwd, w + ".yaml"))
    sc.add(x, "loadreg", os.path.join(cwd, "savereg.yaml"))
    sc.add(x, "loadconf", os.path.join(cwd, "savedyn.yaml"))
    evaluate(x)
    # other flags than those the class was generated with
    for k in range(3):
        sc.add(x, "loadconf", c15.write(os.path.join(cwd, "flags%d.yaml" % k), rob.to_yaml(c14.other_flags(r, d["rb"]))))
        evaluate(x)
    # surplus and damaged files
    rb, P = d["rb"], lambda f: os.path.join(cwd, f)
    for k in (1, 2):
        sc.add(x, "loadconf", c15.write(P("surplus%d.yaml" % k), rob.to_yaml(rb, surplus=k, comments=True)))
        for w in pars:
            sc.add(x, "par", w)
    big = rob.make_robot(int(r.integers(1 << 30)), 0, n=n + 1 + int(r.integers(3)), elastic=1, orders=[3, 2, 1], dl=2)
    less = rob.make_robot(int(r.integers(1 << 30)), 0, n=max(1, n - 1), elastic=0, dl=0)
    yamlio.write_inertial(P("in.yaml"), r.normal(0, 1, (n, 10)), yamlio.REG)
    texts = {"loadconf": rob.to_yaml(rb), "loadreg": open(P("in.yaml")).read()}
    for k, z in enumerate((big, less)):
        p = c15.write(P("other%d.yaml" % k), rob.to_yaml(z))
        sc.add(x, "loadconf", p)
        sc.add(x, "loadreg", p)
        evaluate(x)
    for m in range(12):
        op, p, _, _ = c15.class_fault(r, rb, P("bad%d.yaml" % m), texts, P("no_such_dir/x.yaml"))
        sc.add(x, op, p)
        evaluate(x)
        if m % 3 == 2:
            sc.add(x, "loadconf", conf)
        for w in pars:
            sc.add(x, "par", w)
    for w in ("savereg", "savedyn", "savepar"):
        sc.add(x, w, P("after_" + w + ".yaml"))
    sc.add(x, "loadconf", conf)
    sc.add("copy", "y", x)
    sc.add("del", x)
    sc.add("y", "resize")
    evaluate("y")
    for w in pars:
        sc.add("y", "par", w)
    sc.add("y", "loadconf", conf)
    for f in d["funs"]:
        sc.add("y", "get", f)


def class_cases(ck, eng, quick):
    specs = []
    for i in range(7 if quick else 20):
        specs.append(("h%d" % i, rob.make_robot(ck.seed, 1700 + i, **dict(kinds(i), **({"n": 1 + i % 2} if quick and i % 5 != 1 else {})))))
    # long results: the regressor of this one has hundreds of elements
    specs.append(("long", rob.planar(ck.seed, 1790, 7 if quick else 9, types=["R"] + ["P"] * (6 if quick else 8), elastic=0, orders=[1, 1, 1])))
    fleets = {fl: gen.Fleet(ck, eng, specs, flags=["-f"], flavour=fl, tag="fleet_" + fl, gen_flags=["-O0"], build=False) for fl in ("asan", "pattern", "zero") + (() if quick else ("opt",))}
    lib.par(lambda f: f.prog.build(), fleets.values(), 4)
    for f in fleets.values():
        for nme, log in f.prog.failed.items():
            for d in f.robots.values():
                if nme in (d["name"], "link"):
                    d["problem"] = d["problem"] or "generated code does not compile: " + log
        f.report_problems()
        for d in f.good():
            d["funs"] = sorted(x[0] for x in d["info"]["funs"])
    A = fleets["asan"]
    names = [d["name"] for d in A.good() if all(fleets[k].robots[d["name"]]["problem"] is None for k in fleets)]

    def one(a):
        kind, k = a
        d = A.robots[names[k % len(names)]]
        r = rob.rng_of("c17w", ck.seed, kind, k)
        cwd = ck.scratch.sub("%s%d" % (kind, k))
        sc = lib.Script()
        hist = []
        if k >= len(names):
            ds = [d, A.robots[names[(k + 1 + k // len(names)) % len(names)]]]
            hist = c14.class_history(A, sc, r, ds, 120 if quick else 300, cwd)[3]
        else:
            class_script(sc, r, d, A.conf_of(d), cwd)
        c = lib.Cmp()
        if kind == "san":
            res = lib.run_script(A.prog.exe, sc, cwd, timeout=300)
            cr = res.crash()
            if cr:
                c.bad("class:" + cr[0], "%s: %s" % (d["rb"]["types"], cr[1]))
            c.n = len(res.rec)
        elif kind == "fill":
            runs = []
            for fk, env in [x for x in FILL[1:] if x[0] in fleets] + [("pattern", {"MALLOC_PERTURB_": "0"})]:
                runs.append((fk + str(env), lib.run_script(fleets[fk].prog.exe, sc, cwd, env=dict(lib.ENV, **env)), snapshot(cwd)))
            compare(c, runs, "class", sc)
        else:
            res = lib.run_script(fleets["zero"].prog.exe, sc, cwd, timeout=600, wrapper=["valgrind", "-q", "--error-exitcode=88", "--leak-check=no", "--show-realloc-size-zero=no"])
            if res.rc == 88 or "==" in res.err and re.search(r"==\d+== (Invalid|Conditional|Use of|Mismatched)", res.err):
                c.bad("class:memcheck", "%s: %s" % (d["rb"]["types"], res.err[:1500]))
            c.n = len(res.rec)
        return dict(fail=c.fail, obs=c.n, sig="class" + kind + d["name"] + " ".join(hist), worst={}, count={kind + "_class_operations": c.n},
                    files={d["name"] + ".yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    m = len(names)
    if not m:
        return
    jobs = [("san", k) for k in range(m + (10 if quick else 100))] + [("fill", k) for k in range(m + (6 if quick else 60))]
    jobs += [("memcheck", k) for k in range(1 if quick else m + 5)]
    ck.take(lib.par(one, jobs))


def tool_cases(ck, quick):
    """the conversion program"""
    import checks.c20 as c20
    ck.take(only_memory(x) for x in c20.program_cases(ck, "asan", 4 if quick else 40))


def run(ck):
    quick = ck.tier == "quick"
    main = lib.THUNDER + "/thunder_main.cpp"
    flv = {}

    def build(f):
        flv[f] = lib.Engine(ck.scratch, f, programs=("engine_driver.cpp", main))
    lib.par(build, ["asan", "plain", "pattern", "zero", "opt"], 5)
    asan = flv["asan"]
    root = ck.scratch.sub("cases")
    exe = asan.exe["engine_driver"]
    N = 32 if quick else 400
    ck.take(lib.run_cases(san_case, [(exe, root, ck.seed, i, 40 if quick else 80) for i in range(N)]))
    ck.take(only_memory(x) for x in lib.run_cases(c15.engine_case, [(exe, ck.scratch.sub("files"), ck.seed + 17, i) for i in range(24 if quick else 300)]))
    exes = {k: flv[k].exe["engine_driver"] for k in ("plain", "pattern", "zero", "opt")}
    ck.take(lib.run_cases(fill_case, [(exes, root, ck.seed, i, 40) for i in range(16 if quick else 200)]))
    class_cases(ck, asan, quick)
    if os.path.exists(os.path.join(os.path.dirname(__file__), "c20.py")):
        tool_cases(ck, quick)
    if not quick:
        for i in range(2):
            cwd, rbs, sc, hist = make_case(root, ck.seed, 5000 + i, "v", 10)
            res = lib.run_script(flv["plain"].exe["engine_driver"], sc, cwd, timeout=1500, wrapper=["valgrind", "-q", "--error-exitcode=88", "--leak-check=no", "--show-realloc-size-zero=no"])
            c = lib.Cmp()
            if res.rc == 88:
                c.bad("model:memcheck", res.err[:1500])
            ck.take([dict(fail=c.fail, obs=len(res.rec), sig="memcheck%d" % i, files={"script": "\n".join(sc.lines)} if c.fail else {})])
