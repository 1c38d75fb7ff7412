"""Malformed configurations are rejected, surplus content is tolerated"""
import copy
import os
import random

import yaml

import full
import gen
import lib
import robots as rob

RULE = ("Valid random configurations are damaged (every required section and key removed, every vector shortened or lengthened, unknown joint types, wrong orders, numbers that are none, fewer links "
        "or elastic joints, truncated and corrupted text) and given to the model and to the command line program compiled with AddressSanitizer and UndefinedBehaviorSanitizer: construction must "
        "end with an error, nothing may be generated and the program goes on. Surplus keys at every level, comments, other section orders, extra links and trailing coefficients are added to the "
        "same configurations: functions, values and generated files must be identical. Distinct: robots and damages differ.")


class Raw(yaml.SafeDumper):
    pass


Raw.add_representer(float, lambda d, x: d.represent_scalar("tag:yaml.org,2002:float", repr(x)))


def dump(y):
    return yaml.dump(y, Dumper=Raw, sort_keys=False, default_flow_style=None, width=4000, allow_unicode=True)


def at(y, path):
    for k in path:
        y = y[k]
    return y


def damages(rb, y):
    """list of (name, level, function on a copy); level parse: the constructor refuses it, load: building the robot from the file refuses it"""
    out = []

    def add(name, f, level="parse"):
        out.append((name, level, f))

    def delete(path, level="parse"):
        add("without " + ".".join(map(str, path)), lambda c: at(c, path[:-1]).pop(path[-1]), level)

    def put(path, v, level="parse", tag=None):
        add("%s = %s" % (".".join(map(str, path)), tag or repr(v)[:30]), lambda c: at(c, path[:-1]).__setitem__(path[-1], copy.deepcopy(v)), level)

    def sizes(path, level="parse", longer=True):
        v = at(y, path)
        n = len(v)
        for k in sorted({0, n - 1} if n else ()):
            put(path, v[:k], level, "first %d of %d" % (k, n))
        if longer and n:
            put(path, v + v[-1:], level, "%d and one more" % n)
            put(path, v + v, level, "%d twice" % n)

    n, nej = rb["n"], rb["nej"]
    for k in ("num_joints", "type_joints", "kinematics", "Base_to_L0", "Ln_to_EE"):
        delete([k])
    delete(["kinematics", "DH"])
    for k in ("Base_to_L0", "Ln_to_EE"):
        for s in ("tr", "ypr"):
            delete([k, s])
            sizes([k, s])
            put([k, s], [0.1, "word", 0.2])
        if "symb" in y[k]:
            sizes([k, "symb"])
        else:
            put([k, "symb"], [0] * 5)
    for v in (0, -1, -n, n + 1, n - 1, 2 * n, "many", None, [n], 1.5):
        put(["num_joints"], v)
    sizes(["type_joints"])
    for v in ("X", "r", "R_sea", "", "RP", "SEA", "_SEA", "R_SEA_", "P_SE", "Revolute", "1", None):
        for i in sorted({0, n - 1}):
            put(["type_joints", i], v)
    put(["type_joints"], "R" if n > 1 else {"a": "R"})
    sizes(["kinematics", "DH"])
    if n > 1:
        put(["kinematics", "DH"], y["kinematics"]["DH"][:-4], tag="one row less")
    put(["kinematics", "DH"], y["kinematics"]["DH"] + [0., 0., 0., 0.], tag="one row more")
    put(["kinematics", "DH"], [y["kinematics"]["DH"][4 * i:4 * i + 4] for i in range(n)], tag="nested rows")
    put(["kinematics", "DH", 4 * n - 1], "pi/2")
    if "symb" in y["kinematics"]:
        sizes(["kinematics", "symb"])
    else:
        put(["kinematics", "symb"], [1] * (4 * n + 1), tag="too many")
        put(["kinematics", "symb"], [1] * (4 * n - 1), tag="too few")
    if "gravity" in y:
        sizes(["gravity", "value"])
        delete(["gravity", "value"])
        if "symb" in y["gravity"]:
            sizes(["gravity", "symb"])
        else:
            put(["gravity", "symb"], [0, 0])
            put(["gravity", "symb"], [0, 0, 1, 0])
    links = list(y["dynamics"])
    for i in sorted({0, n - 1}):
        L = ["dynamics", links[i]]
        for k in ("mass", "CoM_x", "CoM_z", "Ixx", "Iyz", "Izz"):
            delete(L + ["inertial", k], "load")
        put(L + ["inertial", "Iyy"], "heavy", "load")
        put(L + ["inertial", "mass"], [1.0, 2.0], "load")
        if "symb" in at(y, L)["inertial"]:
            sizes(L + ["inertial", "symb"])
        else:
            put(L + ["inertial", "symb"], [0] * 9, tag="9 flags")
            put(L + ["inertial", "symb"], [0] * 11, tag="11 flags")
        if rb["Dl_order"] and "friction" in at(y, L):
            sizes(L + ["friction", "Dl"], "load", longer=False)
            if "symb" in at(y, L)["friction"]:
                sizes(L + ["friction", "symb"], longer=False)
            else:
                put(L + ["friction", "symb"], [0] * (rb["Dl_order"] - 1), tag="too few flags")
    delete(["dynamics", links[-1]], "load")
    if n > 1:
        delete(["dynamics", links[0]], "load")
    if any("friction" in l for l in y["dynamics"].values()):
        for k in (1, 3, 40):
            put(["Dl_order"], rb["Dl_order"] + k, "load")
        put(["Dl_order"], -1)
        put(["Dl_order"], "two")
    if rb["ELASTIC"]:
        delete(["elastic"])
        for k in ("K_order", "D_order", "Dm_order"):
            delete(["elastic", k])
            put(["elastic", k], -1)
            put(["elastic", k], "some")
            if nej:
                for d in (1, 3, 40):
                    put(["elastic", k], rb[k] + d, "load")
        put(["ELASTIC_MODEL"], "perhaps")
        if nej:
            delete(["elastic", "joints"])
            put(["elastic", "joints"], {})
            js = list(y["elastic"]["joints"])
            delete(["elastic", "joints", js[-1]])
            if nej > 1:
                delete(["elastic", "joints", js[0]])
            for i in sorted({0, nej - 1}):
                J = ["elastic", "joints", js[i]]
                delete(J + ["Mm"], "load")
                put(J + ["Mm"], "heavy", "load")
                for k in ("K", "D", "Dm"):
                    if rb[k + "_order"]:
                        delete(J + [k], "load")
                        sizes(J + [k], "load", longer=False)
                        if k + "_symb" in at(y, J):
                            sizes(J + [k + "_symb"], longer=False)
                        else:
                            put(J + [k + "_symb"], [1] * (rb[k + "_order"] - 1), tag="too few flags")
            if nej < n:
                rigid = [i for i, t in enumerate(rb["types"]) if not t.endswith("_SEA")][0]
                put(["type_joints", rigid], rb["types"][rigid] + "_SEA", tag="one elastic joint more than described")
    return out


def textual(r, text):
    """damaged text that cannot be a configuration"""
    lines = text.split("\n")
    k = next(i for i, l in enumerate(lines) if l.startswith("kinematics"))
    return [("truncated before the kinematics", "\n".join(lines[:k])), ("open bracket", text.replace("type_joints: [", "type_joints: [[", 1)),
            ("open quote", text.replace("type_joints: ['", "type_joints: ['\"", 1).replace("kinematics:", "kinematics: \"", 1)), ("empty file", ""), ("scalar", "robot\n"),
            ("list", "- a\n- b\n"), ("binary", "".join(chr(int(c)) for c in r.integers(1, 127, 300)) + "\n: ]{"), ("tab", text.replace("  DH", "\t DH", 1)),
            ("undefined alias", text.replace("num_joints: ", "num_joints: *n", 1))]


JUNK = {"zz_unknown": 3, "aa_notes": {"a": [1, 2, "x"], "b": {"c": None}}, "comment": "text: with, [odd] {characters}"}


def surplus(r, rb, y):
    """list of (name, text): the same robot"""
    out = []

    def add(name, f, post=None):
        c = copy.deepcopy(y)
        f(c)
        t = dump(c)
        out.append((name, post(t) if post else t))

    def junk_all(c):
        for d in [c, c["kinematics"], c["Base_to_L0"], c["Ln_to_EE"]] + ([c["gravity"]] if "gravity" in c else []):
            d.update(copy.deepcopy(JUNK))
        for l in c["dynamics"].values():
            for d in (l, l["inertial"]) + ((l["friction"],) if "friction" in l else ()):
                d.update(copy.deepcopy(JUNK))
        if rb["ELASTIC"]:
            c["elastic"]["zz_unknown"] = 5
            for l in (c["elastic"].get("joints") or {}).values():
                l.update(copy.deepcopy(JUNK))

    def links(c):
        l = copy.deepcopy(list(c["dynamics"].values())[-1])
        l["inertial"]["mass"] = 77.0
        if "symb" in l["inertial"]:
            l["inertial"]["symb"] = [1] * 10
        for k in range(1 + int(r.integers(3))):
            c["dynamics"]["spare%d" % k] = copy.deepcopy(l)

    def bare_links(c):
        c["dynamics"]["tool"] = {"description": "no parameters"}

    def joints(c):
        if rb["ELASTIC"] and rb["nej"]:
            l = copy.deepcopy(list(c["elastic"]["joints"].values())[-1])
            l["Mm"] = 88.0
            c["elastic"]["joints"]["spare"] = l

    def coefs(c):
        for l in c["dynamics"].values():
            if "friction" in l and "Dl" in l["friction"]:
                l["friction"]["Dl"] = l["friction"]["Dl"] + [9.5, -3.0]
                if "symb" in l["friction"]:
                    l["friction"]["symb"] = l["friction"]["symb"] + [1]
        if rb["ELASTIC"]:
            for l in (c["elastic"].get("joints") or {}).values():
                for k in ("K", "D", "Dm"):
                    if k in l:
                        l[k] = l[k] + [4.5]
                    if k + "_symb" in l:
                        l[k + "_symb"] = l[k + "_symb"] + [1, 0]

    def names(c):
        c["dynamics"] = {nm: l for nm, l in zip(["shoulder", "z", "a", "Link 7", "b0", "b1", "b2", "b3"], c["dynamics"].values())}
        if rb["ELASTIC"] and rb["nej"]:
            c["elastic"]["joints"] = {nm: l for nm, l in zip(["zeta", "alpha", "7", "m", "c", "b"], c["elastic"]["joints"].values())}

    def order(c):
        ks = list(c)
        r.shuffle(ks)
        for k in ks:
            c[k] = c.pop(k)

    def inner(c):
        for l in list(c["dynamics"].values()) + (list((c["elastic"].get("joints") or {}).values()) if rb["ELASTIC"] else []) + [c["kinematics"], c["Base_to_L0"]]:
            for k in sorted(l, reverse=True):
                l[k] = l.pop(k)

    def comments(t):
        ls = t.rstrip("\n").split("\n")
        return "# first\n\n" + "\n".join(l + ("   # note %d" % i if i % 2 else "") for i, l in enumerate(ls)) + "\n\n# last: {[\n"

    def everything(c):
        for f in (coefs, links, joints, junk_all, names_late, order):
            f(c)

    def names_late(c):
        pass

    add("dumped", lambda c: None)
    add("unknown keys", junk_all)
    add("extra links", links)
    add("extra link without parameters", bare_links)
    add("extra elastic joints", joints)
    add("surplus coefficients", coefs)
    add("other link names", names)
    add("sections reordered", order)
    add("keys reordered", inner)
    add("comments", lambda c: None, comments)
    add("everything", everything, comments)
    return out


def make(seed, idx):
    kw = [dict(elastic=2), dict(), dict(elastic=1), dict(elastic=0)][idx % 4]
    kw["n"] = rob.picker(seed, idx)("n", [1, 2, 3, 4])
    if idx % 4 == 0:
        kw["orders"] = [2, 1, 3]
    rb = rob.make_robot(seed, 18000 + idx, **kw)
    if rb["Dl_order"] and idx % 5 == 4:
        rb["no_friction"] = [0]
    rb["yaml"] = 0          # the reordering and renaming are done below
    text = rob.to_yaml(rb)
    return rb, text, yaml.safe_load(text)


def reject_case(exe, root, seed, idx, pairs):
    rb, text, y = make(seed, idx)
    r = rob.rng_of("c18", seed, idx)
    cwd = os.path.join(root, "r%d" % idx)
    os.makedirs(cwd)
    good = os.path.join(cwd, "good.yaml")
    with open(good, "w") as f:
        f.write(text)
    funs = sorted(full.expect(rb, rob.states(rb, 0, 0, 1))[0])[:4]
    bad = []
    D = damages(rb, y)
    for name, level, f in D:
        c = copy.deepcopy(y)
        f(c)
        bad.append((name, level, dump(c)))
    for name, t in textual(r, text):
        bad.append((name, "parse", t))
    S = dict(surplus(r, rb, y))
    for k in range(pairs):          # damage together with tolerated surplus, or two damages
        a, b = int(r.integers(len(D))), int(r.integers(len(D)))
        c = yaml.safe_load(S[["everything", "unknown keys", "comments"][k % 3]]) if k % 2 else copy.deepcopy(y)
        try:
            D[a][2](c)
            lv = D[a][1]
        except (KeyError, IndexError, TypeError):
            continue
        if k % 2 and ("dynamics" in D[a][0] or "joints" in D[a][0] or "_order" in D[a][0]):
            continue            # the surplus may supply what the damage removes
        try:
            if k % 2 == 0 and len({str(D[a][0]).split(" ")[0], str(D[b][0]).split(" ")[0]}) == 1 and D[a][0].split(" = ")[0] != D[b][0].split(" = ")[0] and not any(
                    z in D[a][0] + D[b][0] for z in ("num_joints", "type_joints", "order", "DH")):
                D[b][2](c)
        except (KeyError, IndexError, TypeError):
            pass
        bad.append((D[a][0] + " and more", lv, dump(c)))
    sc = lib.Script()
    sc.add("new", "ok", "ok", good)
    sc.add("set", "ok", "q", lib.vec(r.normal(0, 1, rb["n"])))
    first = [sc.add("get", "ok", f) for f in funs]
    marks = []
    paths = []
    for k, (name, level, t) in enumerate(bad):
        p = os.path.join(cwd, "bad%d.yaml" % k)
        with open(p, "w", encoding="latin-1" if name == "binary" else None) as f:
            f.write(t)
        paths.append(p)
        marks.append((name, t, sc.add("new", "b", "b", p)))
        if level == "parse" and k % 2 == 0:
            marks.append((name + " (constructor)", t, sc.add("newp", "b", p)))
        if level == "parse" and k % 5 == 0 and name not in ("open bracket", "open quote", "binary", "tab", "undefined alias"):
            marks.append((name + " (constructor from yaml)", t, sc.add("newyaml", "b", p)))
    marks.append(("missing file", "", sc.add("new", "b", "b", cwd + "/absent.yaml")))
    marks.append(("missing file (constructor)", "", sc.add("newp", "b", cwd + "/absent.yaml")))
    marks.append(("folder", "", sc.add("new", "b", "b", cwd)))
    sc.add("new", "ok2", "ok2", good)
    again = [sc.add("get", "ok", f) for f in funs]
    res = lib.run_script(exe, sc, cwd, timeout=300)
    c = lib.Cmp()
    cr = res.crash()
    files = {"good.yaml": text}
    c.eq("refused", res[0][0], "OK", "valid robot %s (%s)" % (rb["types"], res[0][1]))
    if cr:
        n = len(res.rec)
        hit = [m for m in marks if m[2] == n]
        c.bad("malformed:" + cr[0], "malformed configuration (%s): %s" % (hit[0][0] if hit else "?", cr[1]))
        if hit:
            files["bad.yaml"] = hit[0][1]
    for name, t, i in marks:
        if i < len(res.rec):
            if not c.true("accepted", res[i][0] == "EXC", "malformed configuration accepted: %s, robot %s" % (name, rb["types"])):
                files.setdefault("bad.yaml", t)
    for a, b in zip(first, again):
        if res.val(a) is not None and b < len(res.rec):
            c.same("good robot changed", res.val(b), res.val(a), "valid robot after rejected configurations")
    return dict(fail=c.fail, obs=c.n, evals=len(marks), sig=[repr((idx, m[0], rb["types"])) for m in marks], worst={}, count={"malformed_configurations": len(marks)},
                sample={"types": rb["types"], "damages": [m[0] for m in marks[::29]]} if idx % 5 == 0 else None, files=files if c.fail else {})


def cli_case(cli, root, seed, idx, count):
    """the command line program: nothing is generated from a malformed configuration"""
    rb, text, y = make(seed, 300 + idx)
    r = rob.rng_of("c18cli", seed, idx)
    D = damages(rb, y)
    c = lib.Cmp()
    files, sigs = {}, []
    for k in range(count):
        name, level, f = D[int(r.integers(len(D)))]
        cc = copy.deepcopy(y)
        f(cc)
        cwd = os.path.join(root, "cli%d_%d" % (idx, k))
        os.makedirs(cwd)
        t = dump(cc)
        if k == count - 1:
            name, t = "missing file", None
        if t is not None:
            with open(cwd + "/mine.yaml", "w") as g:
                g.write(t)
        rc, o, e, hang = lib.run_prog([cli, "gen", "mine.yaml"], cwd, 150)
        rep = lib.sanitizer_report(e)
        n0 = len(c.fail)
        c.true("cli:" + (rep[0] if rep else "hang"), not rep and not hang, "command line program with %s: %s" % (name, rep[1] if rep else "does not end"))
        c.true("cli:success", "Library generated" not in o, "command line program announces success with malformed configuration: %s" % name)
        made = sorted(x for x in os.listdir(cwd) if x != "mine.yaml")
        c.true("cli:files", not made, "command line program wrote %s from a malformed configuration: %s" % (made, name))
        c.true("cli:error", (o + e).strip() != "", "no error shown for %s" % name)
        sigs.append("cli" + name + repr(rb["types"]))
        if len(c.fail) > n0:
            files["bad.yaml"] = t or ""
    return dict(fail=c.fail, obs=c.n, evals=count, sig=sigs, worst={}, count={"malformed_command_lines": count}, files=files)


def fuzz_case(exe, root, seed, idx, count):
    """arbitrary corrupted text: refused or not, but no memory error and the program goes on"""
    rb, text, y = make(seed, 600 + idx)
    r = rob.rng_of("c18fuzz", seed, idx)
    cwd = os.path.join(root, "f%d" % idx)
    os.makedirs(cwd)
    good = os.path.join(cwd, "good.yaml")
    with open(good, "w") as f:
        f.write(text)
    sc = lib.Script()
    lines = text.split("\n")
    texts = {}
    for k in range(count):
        ls = list(lines)
        for _ in range(1 + int(r.integers(3))):
            op = int(r.integers(6))
            i = int(r.integers(len(ls)))
            if op == 0:
                del ls[i]
            elif op == 1:
                ls.insert(i, ls[int(r.integers(len(ls)))])
            elif op == 2 and ls[i]:
                p = int(r.integers(len(ls[i])))
                ls[i] = ls[i][:p] + "[]{}:,-#'&*! x1\t"[int(r.integers(16))] + ls[i][p + 1:]
            elif op == 3:
                p = ls[i].find("[")
                if p >= 0:
                    v = ls[i][p + 1:].rstrip(" ],").split(",")
                    j = int(r.integers(len(v)))
                    v = v[:j] + v[j + 1:] if r.random() < .5 else v[:j] + [v[j]] + v[j:]
                    ls[i] = ls[i][:p + 1] + ",".join(v) + ("]" if "]" in ls[i] else "")
            elif op == 4:
                j = int(r.integers(len(ls)))
                ls[i], ls[j] = ls[j], ls[i]
            elif op == 5:
                ls = ls[:i] if r.random() < .3 and i > 2 else ls
            if not ls:
                ls = [""]
        # orders and joint counts stay small
        t = "\n".join(l if "order" not in l and "num_joints" not in l else l.split(":")[0] + ": " + (l.split(":")[-1].strip()[:1] or "1") for l in ls) + "\n"
        p = os.path.join(cwd, "f%d.yaml" % k)
        with open(p, "w") as f:
            f.write(t)
        j = sc.add("new", "x", "x", p)
        texts[j] = t
        sc.add("get", "x", "M")
        sc.add("get", "x", "T_0_ee")
        sc.add("saveconf", "x", cwd + "/saved.yaml")
    sc.add("new", "ok", "ok", good)
    last = sc.add("get", "ok", "M")
    res = lib.run_script(exe, sc, cwd, timeout=300)
    c = lib.Cmp()
    cr = res.crash()
    files = {}
    if cr:
        n = len(res.rec)
        k = max([j for j in texts if j <= n], default=None)
        files["bad.yaml"] = texts.get(k, "")
        c.bad("corrupted:" + cr[0], "corrupted configuration: %s" % cr[1])
    else:
        c.true("corrupted:after", res.val(last) is not None, "a valid robot is not built after corrupted ones")
    acc = sum(1 for j in texts if res[j][0] == "OK")
    return dict(fail=c.fail, obs=len(res.rec), evals=count, sig=["fuzz%d_%d" % (idx, k) for k in range(count)], worst={},
                count={"corrupted_texts": count, "corrupted_texts_accepted": acc}, files=files)


def surplus_case(exe, root, seed, idx):
    rb, text, y = make(seed, idx)
    r = rob.rng_of("c18s", seed, idx)
    cwd = os.path.join(root, "s%d" % idx)
    os.makedirs(cwd)
    st = rob.states(rb, seed, idx, 2)
    funs = sorted(full.expect(rb, rob.states(rb, 0, 0, 1))[0])
    variants = [("original", text)] + surplus(r, rb, y)
    sc = lib.Script()
    marks = []
    for k, (name, t) in enumerate(variants):
        p = os.path.join(cwd, "v%d.yaml" % k)
        with open(p, "w") as f:
            f.write(t)
        m = [("construction", sc.add("new", "v", "same", p)), ("info", sc.add("info", "v")), ("inertial parameters", sc.add("getdyn", "v")), ("regressor parameters", sc.add("getreg", "v"))]
        for a in ("q", "dq", "ddq", "d3q", "dqr", "ddqr"):
            sc.add("set", "v", a, lib.vec(st[a][1]))
        if rb["ELASTIC"]:
            for a in ("x", "dx", "ddx"):
                sc.add("set", "v", a, lib.vec(st[a][1]))
        m += [(f, sc.add("get", "v", f)) for f in funs]
        marks.append(m)
    res = lib.run_script(exe, sc, cwd, timeout=300)
    c = lib.Cmp()
    files = {}
    cr = res.crash()
    if cr:
        c.bad("surplus:" + cr[0], "configuration with surplus content: %s" % cr[1])
    base = marks[0]
    for (name, t), m in zip(variants, marks):
        n0 = len(c.fail)
        for (w, i), (_, j) in zip(m, base):
            if i >= len(res.rec):
                break
            if w == "construction":
                c.eq("surplus:refused", res[i][0], "OK", "%s: valid robot %s with %s (%s)" % (w, rb["types"], name, res[i][1]))
            elif w == "info":
                c.eq("surplus:functions", res[i], res[j], "functions with " + name)
            elif res.val(j) is not None:
                c.same("surplus:value", res.val(i), res.val(j), "%s of %s with %s" % (w, rb["types"], name))
        if len(c.fail) > n0:
            files["variant.yaml"] = t
            files["original.yaml"] = text
    return dict(fail=c.fail, obs=c.n, evals=len(variants), sig=[repr(("surplus", idx, v[0], rob.signature(rb))) for v in variants], worst={},
                count={"surplus_configurations": len(variants)}, files=files)


def cli_surplus_case(cli, root, seed, idx):
    """the files generated from the same robot with surplus content"""
    rb, text, y = make(seed, idx)
    r = rob.rng_of("c18s", seed, idx)
    variants = [("original", text)] + [v for k, v in enumerate(surplus(r, rb, y)) if v[0] in ("unknown keys", "everything") or k % 4 == idx % 4]
    c = lib.Cmp()
    base = None
    files = {}
    for k, (name, t) in enumerate(variants):
        cwd = os.path.join(root, "sc%d_%d" % (idx, k))
        os.makedirs(cwd)
        with open(cwd + "/same.yaml", "w") as f:
            f.write(t)
        rc, o, e, hang = lib.run_prog([cli, "gen", "same.yaml"], cwd, 150)
        got = {}
        d = cwd + "/same_generatedFiles"
        for f in ("same_gen.h", "same_gen.cpp", "thunder_same.h", "thunder_same.cpp", "same_par_REG.yaml"):
            got[f] = open(d + "/" + f).read() if os.path.exists(d + "/" + f) else None
        rep = lib.sanitizer_report(e)
        if rep:
            c.bad("surplus:" + rep[0], rep[1])
        if base is None:
            base = got
        for f in got:
            if not c.true("surplus:generated", got[f] is not None and got[f] == base[f], "%s generated from %s with %s %s" % (f, rb["types"], name, "is not written" if got[f] is None else "differs")):
                files["variant.yaml"], files["original.yaml"] = t, text
    return dict(fail=c.fail, obs=c.n, evals=len(variants), sig=[repr(("surpluscli", idx, v[0])) for v in variants], worst={}, count={"surplus_generations": len(variants)}, files=files)


def run(ck):
    quick = ck.tier == "quick"
    asan, plain = lib.par(lambda f: lib.Engine(ck.scratch, f, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp")), ["asan", "plain"], 2)
    lib.ensure_template()
    root = ck.scratch.sub("cases")
    exe = asan.exe["engine_driver"]
    ck.take(lib.run_cases(reject_case, [(exe, root, ck.seed, i, 30) for i in range(16 if quick else 160)]))
    ck.take(lib.run_cases(cli_case, [(asan.exe["thunder_main"], root, ck.seed, i, 6) for i in range(8 if quick else 80)]))
    ck.take(lib.run_cases(fuzz_case, [(exe, root, ck.seed, i, 25 if quick else 60) for i in range(16 if quick else 200)]))
    ck.take(lib.run_cases(surplus_case, [(plain.exe["engine_driver"], root, ck.seed, i) for i in range(24 if quick else 240)]))
    ck.take(lib.run_cases(cli_surplus_case, [(plain.exe["thunder_main"], root, ck.seed, i) for i in range(8 if quick else 60)]))
    # the class generated from and loading a configuration with surplus content
    specs = gen.spec_list(ck, 3 if quick else 20, 3, "s", kwf=lambda i: dict(elastic=[2, 0, 1][i % 3], dl=1 + i % 3))
    fl = gen.Fleet(ck, plain, specs, tag="surplus", yaml_kw=dict(surplus=2, comments=True))
    fl.report_problems()

    def one(d):
        rb = d["rb"]
        sc = lib.Script()
        st = rob.states(rb, ck.seed, 99, 2)
        want = full.expect(rb, st)[1]
        sc.add("new", "o", d["name"])
        k = sc.add("o", "loadconf", fl.conf_of(d))
        for a in ("q", "dq", "ddq", "d3q", "dqr", "ddqr", "w") + (("x", "dx", "ddx") if rb["ELASTIC"] else ()):
            sc.add("o", "set", a, lib.vec(st[a][1]))
        idx = [(f, sc.add("o", "get", f)) for f in sorted(want)]
        res = fl.run(d, sc, "num")
        c = lib.Cmp()
        cr = res.crash()
        if cr:
            c.bad("surplus:" + cr[0], cr[1])
        for f, i in idx:
            w, tol = want[f]
            tol = lib.np.asarray(tol)
            if i < len(res.rec):
                c.num("surplus:class", res.val(i), lib.np.asarray(w)[1], tol[1] if tol.ndim else tol, "generated get_%s with surplus content, robot %s" % (f, rb["types"]))
        return dict(fail=c.fail, obs=c.n, evals=1, sig="class" + repr(rob.signature(rb)), worst=c.worst, files={"robot.yaml": d["text"]} if c.fail else {})
    ck.take(lib.par(one, fl.good()))
