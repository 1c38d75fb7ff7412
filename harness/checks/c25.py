"""Repeated use consumes nothing"""
import os

import numpy as np

import full
import gen
import lib
import numeric
import robots as rob

RULE = ("Rounds of the same random operations on the model and on generated classes (construction, copying and destruction, setters, refused calls, getters, added functions, saves, loads, failing "
        "loads and constructions, generation) are repeated in one process; after each round the bytes in use on the heap and the open files are counted, and all results are compared with those "
        "of the first round bit by bit. What still grows from the first to the second and to the third third of the rounds never stops growing. "
        "Also many robots (270, thorough 600) built, evaluated and generated in one process, and one call repeated up to 3000 (thorough 70000) times on one object, all with the results and files of the first. Distinct: robots and operations differ.")

# freed blocks that the allocator keeps per thread would count as in use
NOCACHE = dict(lib.ENV, GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1")


def growth(c, label, mem, what):
    """mem: list of dict(heap, files) after each round; the first rounds fill caches"""
    for k in ("heap", "files"):
        v = [m[k] for m in mem][2:]
        n = len(v) // 3
        a, b, d = v[:n], v[n:2 * n], v[2 * n:]
        c.true(label + k, not (max(a) < min(b) and max(b) < min(d)), "%s: %s after each round: %s" % (what, "bytes in use" if k == "heap" else "open files", v))


def compare(c, label, res, rounds, what):
    """records of each round against those of the first"""
    first = rounds[0]
    for t, ids in enumerate(rounds[1:]):
        for i, j in zip(first, ids):
            if j >= len(res.rec):
                return
            a, b = res[i], res[j]
            if a[0] == "V" and b[0] == "V":
                c.same(label + "value", b[1], a[1], "%s: %r in round %d" % (what, res.script[j][:80], t + 2))
            elif a[0] in ("OK", "EXC"):
                c.eq(label + "result", b, a, "%s: %r in round %d" % (what, res.script[j][:80], t + 2))


def bad_files(cwd, text):
    out = {}
    for k, t in (("cut", text[:len(text) // 2]), ("key", text.replace("kinematics", "kin")), ("text", text.replace("mass: ", "mass: x")), ("syntax", "{ [" + text)):
        out[k] = os.path.join(cwd, "bad_%s.yaml" % k)
        with open(out[k], "w") as f:
            f.write(t)
    out["missing"] = os.path.join(cwd, "no_such_dir/x.yaml")
    # no directories: yaml-cpp's own stream loses its buffer (2 kB) when it is given one
    return out


def engine_case(exe, root, seed, idx, R):
    r = rob.rng_of("c25", seed, idx)
    cwd = os.path.join(root, "e%d" % idx)
    os.makedirs(cwd + "/out")
    P = lambda n: os.path.join(cwd, n)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 25000 + idx, n=Q("n", [1, 2, 3]), elastic=Q("elastic", [0, 2, 1]), sym=Q("masks", [None, "full"]))
    text = rob.to_yaml(rb)
    with open(P("robot.yaml"), "w") as f:
        f.write(text)
    bad = bad_files(cwd, text)
    st = rob.states(rb, seed, 25000 + idx, 6)
    args = numeric.state_args(rb)
    ops = []
    groups = [k for k in ("new", "copy", "set", "wrong", "get", "add", "save", "load", "badload", "badnew", "gen", "info")]
    pick = [g for g in groups if r.random() < .6] or ["get"]
    if idx % 4 == 0:
        pick = groups
    funs = sorted(full.expect(rb, st)[0])
    s = int(r.integers(2, 6))
    for g in pick:
        if g == "new":
            ops += [("new", "y", "rob", P("robot.yaml"), int(r.integers(2)))] + [("get", "y", f) for f in funs[:3]] + [("del", "y")] * int(r.integers(2))
        elif g == "copy":
            ops += [("copy", "c", "r"), ("set", "c", "q", lib.vec(st["q"][s])), ("get", "c", "M"), ("assign", "c", "r")] + [("del", "c")] * int(r.integers(2))
        elif g == "set":
            ops += [("set", "r", a, lib.vec(st[a][s])) for a in args]
        elif g == "wrong":
            ops += [("set", "r", a, lib.vec(np.ones(rb["n"] + 1 + k))) for k, a in enumerate(args[:4])] + [("get", "r", "no_such_function"), ("setn", "r", "par_DYN", lib.vec(np.ones(3)))]
        elif g == "get":
            ops += [("get", "r", f) for f in funs] + [("arg", "r", a) for a in ("par_REG", "par_DYN", "q")]
        elif g == "add":
            ops += [("addfun", "r", "mine", 1, "text", lib.lst(["q"]), "sin", "m", "q"),
                    ("addfun", "r", "mine", 0, "text", lib.lst(["q"]), "m", "q"), ("get", "r", "mine"), ("addfun", "r", "worse", 1, "text", lib.lst(["dq"]), "m", "q")]
        elif g == "save":
            ops += [(w, "r", P("out/%s.yaml" % w)) for w in ("saveconf", "savepar", "savereg")] + [("saveconf", "r", P("no_such_dir/x.yaml"))]
        elif g == "load":
            ops += [("saveconf", "r", P("out/c.yaml")), ("savepar", "r", P("out/p.yaml")), ("savereg", "r", P("out/g.yaml")), ("loadpar", "r", P("out/p.yaml")), ("loadconf", "r", P("out/c.yaml"), 0),
                    ("loadreg", "r", P("out/g.yaml"), 0)]
        elif g == "badload":
            ops += [(w, "r", bad[k]) for w in ("loadpar", "loadconf") for k in ("key", "text", "syntax", "missing")] + [("loadreg", "r", bad[k], 0) for k in ("syntax", "missing")]
        elif g == "badnew":
            ops += [("new", "z", "rob", bad[k]) for k in sorted(bad)]
        elif g == "gen":
            ops += [("gen", "r", P("out/"), "lib", int(r.integers(2)))]
        elif g == "info":
            ops += [("info", "r")]
    sc = lib.Script()
    sc.add("new", "r", "rob", P("robot.yaml"))
    rounds, mem = [], []
    # a failed or partial load may change parameters: each round starts with the same values
    start = sc.add("savepar", "r", P("start.yaml"))
    for t in range(R):
        for a in args:          # values that never come back
            sc.add("set", "r", a, lib.vec(st[a][s] + r.normal(size=len(st[a][s]))))
        for f in funs[::3]:
            sc.add("get", "r", f)
        for a in args:
            sc.add("set", "r", a, lib.vec(st[a][s]))
        ids = [sc.add("loadpar", "r", P("start.yaml"))]
        for o in ops:
            ids.append(sc.add(*o))
        rounds.append(ids)
        mem.append(sc.add("mem"))
    res = lib.run_script(exe, sc, cwd, env=NOCACHE)
    c = lib.Cmp()
    cr = res.crash()
    what = "model of %s, rounds of %s" % (rb["types"], pick)
    if cr:
        c.bad("model:" + cr[0], "%s: %s" % (what, cr[1]))
    elif mem[-1] < len(res.rec):
        growth(c, "model:", [res[i][1] for i in mem], what)
    compare(c, "model:", res, rounds, what)
    import shutil
    shutil.rmtree(cwd) if not c.fail else None
    return dict(fail=c.fail, obs=c.n, sig=["model %d %s" % (idx, pick)], worst={}, count={"rounds": R, "operations": R * len(ops)},
                sample=dict(types=rb["types"], operations=pick, bytes_in_use=[res[i][1]["heap"] for i in mem if i < len(res.rec)][:6]) if idx < 2 else None,
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def class_cases(ck, eng, count, R):
    specs = gen.spec_list(ck, count, 3, "z", lambda i: dict(elastic=rob.picker(ck.seed, i)("elastic", [0, 2, 1]), sym=rob.picker(ck.seed, i)("masks", [None, "full", "none"])))
    fl = gen.Fleet(ck, eng, specs, tag="fleet25", gen_flags=["-O0"])
    fl.report_problems()
    good = fl.good()

    def one(a):
        d, k = a
        rb = d["rb"]
        r = rob.rng_of("c25k", ck.seed, d["name"], k)
        cwd = ck.scratch.sub("z_%s_%d" % (d["name"], k))
        P = lambda n: os.path.join(cwd, n)
        bad = bad_files(cwd, d["text"])
        st = rob.states(rb, ck.seed, 25500 + k, 6)
        s = int(r.integers(2, 6))
        conf = fl.conf_of(d)
        groups = ["new", "copy", "set", "wrong", "get", "par", "save", "load", "badload", "resize", "threads"]
        pick = [g for g in groups if r.random() < .6] or ["get"]
        if k == 0:
            pick = groups
        funs = sorted(f[0] for f in d["info"]["funs"])
        four = ("q", "dq", "dqr", "ddqr")
        ops = []
        for g in pick:
            if g == "new":
                ops += [("new", "y", d["name"]), ("y", "loadconf", conf), ("y", "set", "q", lib.vec(st["q"][s])), ("y", "get", "M")] + [("del", "y")] * int(r.integers(2))
            elif g == "copy":
                ops += [("copy", "c", "o"), ("c", "set", "q", lib.vec(st["q"][s])), ("c", "get", "M")] + [("del", "c")] * int(r.integers(2))
            elif g == "set":
                ops += [("o", "set", a, lib.vec(st[a][s])) for a in numeric.state_args(rb)] + [("o", "setArguments", *[lib.vec(st[a][s]) for a in four])]
            elif g == "wrong":
                ops += [("o", "set", a, lib.vec(np.ones(rb["n"] + 1 + j))) for j, a in enumerate(four)] + [("o", "setArguments", *[lib.vec(np.ones(rb["n"] + 2))] * 4), ("o", "set", "par_REG", lib.vec(np.ones(3)))]
            elif g == "get":
                ops += [("o", "get", f) for f in funs]
            elif g == "par":
                ops += [("o", "par", w) for w in ("par_REG", "par_DYN", "par_DHtable", "par_gravity")]
            elif g == "save":
                ops += [("o", w, P(w + ".yaml")) for w in ("savepar", "savereg", "savedyn")] + [("o", "savepar", P("no_such_dir/x.yaml"))]
            elif g == "load":
                ops += [("o", "loadconf", conf), ("o", "savereg", P("g.yaml")), ("o", "loadreg", P("g.yaml")), ("o", "loadconf", conf)]
            elif g == "badload":
                ops += [("o", w, bad[b]) for w in ("loadconf", "loadreg") for b in ("key", "text", "syntax", "missing")]
            elif g == "resize":
                ops += [("o", "resize")]
            elif g == "threads":
                ops += [("thread", "o", "get", f) for f in funs]
        sc = lib.Script()
        sc.add("new", "o", d["name"])
        rounds, mem = [], []
        for t in range(R):
            for a in numeric.state_args(rb):          # values that never come back
                sc.add("o", "set", a, lib.vec(st[a][s] + r.normal(size=len(st[a][s]))))
            for f in funs:
                sc.add("o", "get", f)
            ids = [sc.add("o", "loadconf", conf)]
            ids += [sc.add("o", "set", a, lib.vec(st[a][s])) for a in numeric.state_args(rb)]
            for o in ops:
                ids.append(sc.add(*o))
            rounds.append(ids)
            mem.append(sc.add("mem"))
        res = lib.run_script(fl.prog.exe, sc, cwd, env=NOCACHE)
        c = lib.Cmp()
        cr = res.crash()
        what = "generated class of %s, rounds of %s" % (rb["types"], pick)
        if cr:
            c.bad("class:" + cr[0], "%s: %s" % (what, cr[1]))
        elif mem[-1] < len(res.rec):
            growth(c, "class:", [res[i][1] for i in mem], what)
        if "badload" not in pick:        # a partial load may change what the good file does not name
            compare(c, "class:", res, rounds, what)
        return dict(fail=c.fail, obs=c.n, sig=["class %s %d %s" % (d["name"], k, pick)], worst={}, count={"rounds": R, "operations": R * len(ops)},
                    files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    ck.take(lib.par(one, [(d, k) for d in good for k in range(4 if ck.tier == "quick" else 20)]))

    def many(a):
        """one call on one object, very many times; and very many objects"""
        d, k = a
        rb = d["rb"]
        r = rob.rng_of("c25y", ck.seed, d["name"], k)
        cwd = ck.scratch.sub("y_%s_%d" % (d["name"], k))
        P = lambda n: os.path.join(cwd, n)
        bad = bad_files(cwd, d["text"])
        st = rob.states(rb, ck.seed, 25600 + k, 6)
        conf = fl.conf_of(d)
        funs = sorted(f[0] for f in d["info"]["funs"])
        args = numeric.state_args(rb)
        # the cheapest functions can be called most often
        f = funs[int(r.integers(len(funs)))]
        seen = [("o", "get", g) for g in ("M", "Yr", "J_ee_dot") if g in funs]       # where the values that were set show
        two = lambda g: [[("o",) + tuple(o) for o in g(k)] + seen for k in (3, 2)]
        kinds = [([("o", "get", f)], R), (two(lambda k: [("set", a, lib.vec(st[a][k])) for a in args]), R // 8), ([("o", "set", "q", lib.vec(np.ones(rb["n"] + 1)))], R),
                 ([[("o", "loadconf", f), ("o", "par", "par_DYN"), ("o", "par", "par_REG"), ("o", "get", "M")] for f in (P("robot3.yaml"), conf)], 300), ([("o", "loadconf", bad["missing"])], 300),
                 ([[("o", "loadreg", P("g%d.yaml" % k)), ("o", "par", "par_DYN"), ("o", "get", "M")] for k in (3, 2)], 300), ([("o", "par", "par_REG"), ("o", "par", "par_DYN"), ("o", "par", "par_DHtable")], R // 8),
                 ([("copy", "c", "o"), ("c", "get", "M"), ("del", "c")], 600), ([("new", "y", d["name"]), ("y", "loadconf", conf), ("y", "get", "M")], 300),
                 ([("o", "savepar", P("s.yaml")), ("o", "savereg", P("g.yaml"))], 300), (two(lambda k: [("setArguments", *[lib.vec(st[a][k]) for a in ("q", "dq", "dqr", "ddqr")])]), R // 6),
                 ([("thread", "o", "get", f)], 300)]
        kind, times = kinds[k % len(kinds)]
        if not isinstance(kind[0], list):
            kind = [kind, kind]
        probe = [("o", "get", g) for g in funs] + [("o", "par", w) for w in ("par_REG", "par_DYN", "par_DHtable", "par_gravity")]
        sc = lib.Script()
        with open(P("robot3.yaml"), "w") as h:
            h.write(rob.to_yaml(heavier(rb)))
        sc.add("new", "o", d["name"])
        for j in (3, 2):
            sc.add("o", "loadconf", P("robot3.yaml") if j == 3 else conf)
            sc.add("o", "savereg", P("g%d.yaml" % j))
        for a in args:
            sc.add("o", "set", a, lib.vec(st[a][2]))
        rounds = []
        each = []
        for t in range(times):
            each.append([sc.add(*o) for o in kind[t % 2]])
            if t % 2 and (t in (1, 301, times - 1, times - 2) or times <= 300 and t % 40 == 39):
                rounds.append([sc.add(*o) for o in probe])
        res = lib.run_script(fl.prog.exe, sc, cwd, timeout=600)
        c = lib.Cmp()
        cr = res.crash()
        what = "%d times %s on a generated class of %s" % (times, [o[:3] for o in kind[0]], rb["types"])
        if cr:
            c.bad("classcalls:" + cr[0], "%s: %s" % (what, cr[1]))
        compare(c, "classcalls:probe ", res, rounds, what)
        compare(c, "classcalls:", res, each[::2], what)
        compare(c, "classcalls:", res, each[1::2], what)
        if not c.fail:
            import shutil
            shutil.rmtree(cwd)
        return dict(fail=c.fail, obs=c.n, sig=["class calls %s %d" % (d["name"], k)], worst={}, count={"repeated calls": times * len(kind[0])},
                    files={"robot.yaml": d["text"]} if c.fail else {})
    R = 3000 if ck.tier == "quick" else 70000
    ck.take(lib.par(many, [(d, k) for i, d in enumerate(good) for k in range(12) if ck.tier != "quick" or (k + i) % 2 or i < 2]))


def many_robots_case(exe, root, seed, idx, R, G):
    """many robots built, evaluated and generated in one process: each like the first"""
    r = rob.rng_of("c25m", seed, idx)
    cwd = os.path.join(root, "m%d" % idx)
    os.makedirs(cwd)
    P = lambda n: os.path.join(cwd, n)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 25900 + idx, n=[1, 2][idx % 2], elastic=Q("elastic_m", [1, 0]), sym=Q("masks_m", [None, "full"]))
    text = rob.to_yaml(rb)
    with open(P("robot.yaml"), "w") as f:
        f.write(text)
    bad = bad_files(cwd, text)
    st = rob.states(rb, seed, 25900 + idx, 6)
    s = int(r.integers(2, 6))
    funs = sorted(full.expect(rb, st)[0])
    sc = lib.Script()
    rounds, out = [], []
    for t in range(R):
        ids = [sc.add("new", "r", "rob", P("robot.yaml"), idx // 2 % 2)]
        ids += [sc.add("set", "r", a, lib.vec(st[a][s])) for a in numeric.state_args(rb)]
        ids += [sc.add("get", "r", f) for f in funs]
        ids += [sc.add("arg", "r", a) for a in ("par_REG", "par_DYN")]
        if t in G or t == R - 1:
            os.makedirs(P("o%d" % t))
            out.append(P("o%d" % t))
            ids.append(sc.add("gen", "r", P("o%d/" % t), "lib", 1))
            [sc.add(w, "r", P("o%d/%s.yaml" % (t, w))) for w in ("saveconf", "savepar", "savereg")]
        else:
            # so that every round has as many records
            ids.append(None)
        if t % 3 == 0:
            sc.add("new", "z", "rob", bad[sorted(bad)[t // 3 % len(bad)]])
        rounds.append(ids)
    res = lib.run_script(exe, sc, cwd, timeout=600)
    c = lib.Cmp()
    cr = res.crash()
    what = "%d robots %s built in one process" % (R, rb["types"])
    if cr:
        c.bad("many:" + cr[0], "%s: %s" % (what, cr[1]))
    compare(c, "many:", res, [[i for i in ids if i is not None] if len(ids) and ids[-1] is not None else ids[:-1] for ids in rounds], what)
    base = None
    for o in out:
        files = {}
        for dp, _, fs in os.walk(o):
            for f in fs:
                with open(os.path.join(dp, f), "rb") as h:
                    files[os.path.relpath(os.path.join(dp, f), o)] = h.read().replace(os.path.basename(o).encode() + b"/", b"O/")
        if base is None:
            base = files
        c.eq("many:files", sorted(files), sorted(base), "%s: files of %s" % (what, os.path.basename(o)))
        for f in sorted(set(files) & set(base)):
            c.true("many:content", files[f] == base[f], "%s: %s written in round %s differs from the first" % (what, f, os.path.basename(o)[1:]))
    if not c.fail:
        import shutil
        shutil.rmtree(cwd)
    return dict(fail=c.fail, obs=c.n, sig=["many robots %d" % idx], worst={}, count={"robots built": R, "generated": len(out)},
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def heavier(rb):
    """the same robot with other masses and gravity"""
    import copy
    x = copy.deepcopy(rb)
    for d in x["dyn"]:
        d[0] = d[0] * 2 + .5
    x["gravity"] = [-g * 1.5 + .25 for g in x["gravity"]] if x["gravity"] else x["gravity"]
    return x


def many_calls_case(exe, root, seed, idx, R):
    """one call on one model, very many times"""
    r = rob.rng_of("c25n", seed, idx)
    cwd = os.path.join(root, "n%d" % idx)
    os.makedirs(cwd)
    P = lambda n: os.path.join(cwd, n)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 25950 + idx, n=1, elastic=Q("elastic_n", [0, 1]), sym="full")
    text = rob.to_yaml(rb)
    with open(P("robot.yaml"), "w") as f:
        f.write(text)
    bad = bad_files(cwd, text)
    st = rob.states(rb, seed, 25950 + idx, 6)
    args = numeric.state_args(rb)
    funs = sorted(full.expect(rb, st)[0])
    sc = lib.Script()
    sc.add("new", "r", "rob", P("robot.yaml"))
    for a in args:
        sc.add("set", "r", a, lib.vec(st[a][2]))
    with open(P("robot3.yaml"), "w") as f:
        f.write(rob.to_yaml(heavier(rb)))
    for k in (3, 2):
        sc.add("loadconf", "r", P("robot3.yaml" if k == 3 else "robot.yaml"), 0)
        sc.add("savepar", "r", P("p%d.yaml" % k))
        sc.add("savereg", "r", P("g%d.yaml" % k))
    probe = [("get", "r", f) for f in funs] + [("arg", "r", a) for a in ["par_REG", "par_DYN"] + list(args)]
    seen = [f for f in ("M", "Yr", "J_ee_dot") if f in funs]       # where the values that were set show
    kinds = [[[("set", "r", a, lib.vec(st[a][k])) for a in args] + [("get", "r", f) for f in seen] for k in (3, 2)], [("set", "r", "q", lib.vec(np.ones(rb["n"] + 1)))], [("get", "r", funs[int(r.integers(len(funs)))])],
             [[("loadpar", "r", P("p%d.yaml" % k)), ("arg", "r", "par_DYN"), ("get", "r", "M")] for k in (3, 2)],
             [[("loadreg", "r", P("g%d.yaml" % k), 1), ("arg", "r", "par_DYN"), ("arg", "r", "par_REG")] for k in (3, 2)],
             [[("loadconf", "r", P(f), 0), ("arg", "r", "par_DYN"), ("arg", "r", "par_REG")] for f in ("robot3.yaml", "robot.yaml")],
             [[("savepar", "r", P("s.yaml")), ("loadpar", "r", P("p%d.yaml" % k)), ("loadpar", "r", P("s.yaml")), ("arg", "r", "par_DYN")] for k in (3, 2)], [("loadpar", "r", bad["missing"])], [("addfun", "r", "mine", 1, "text", lib.lst(["q"]), "sin", "m", "q"), ("get", "r", "mine")],
             [("copy", "c", "r"), ("get", "c", "M")], [("savepar", "r", P("s.yaml"))]]
    kind = kinds[idx % len(kinds)]
    if not isinstance(kind[0], list):
        kind = [kind, kind]
    times = R if idx % len(kinds) in (0, 1, 2) else 300
    rounds = []
    each = []
    for t in range(times):
        each.append([sc.add(*o) for o in kind[t % 2]])
        if t % 2 and (t in (1, 301, times - 1, times - 2) or times <= 300 and t % 40 == 39):
            rounds.append([sc.add(*o) for o in probe])
    res = lib.run_script(exe, sc, cwd, timeout=600)
    c = lib.Cmp()
    cr = res.crash()
    what = "%d times %s on one model of %s" % (times, [k[0] for k in kind[0]], rb["types"])
    if cr:
        c.bad("calls:" + cr[0], "%s: %s" % (what, cr[1]))
    compare(c, "calls:probe ", res, rounds, what)
    compare(c, "calls:", res, each[::2], what)
    compare(c, "calls:", res, each[1::2], what)
    if not c.fail:
        import shutil
        shutil.rmtree(cwd)
    return dict(fail=c.fail, obs=c.n, sig=["many calls %d" % idx], worst={}, count={"repeated calls": times * len(kind[0])},
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    ck.take(lib.run_cases(engine_case, [(eng.exe["engine_driver"], root, ck.seed, i, 14 if quick else 40) for i in range(24 if quick else 200)]))
    ck.take(lib.run_cases(many_robots_case, [(eng.exe["engine_driver"], root, ck.seed, i, 270 if quick else 600, (0, 1, 30, 300)) for i in range(4 if quick else 12)]))
    ck.take(lib.run_cases(many_calls_case, [(eng.exe["engine_driver"], root, ck.seed, i, 700 if quick else 70000) for i in range(12 if quick else 24)]))
    class_cases(ck, eng, 4 if quick else 12, 14 if quick else 60)
