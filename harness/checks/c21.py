"""Functions added by the user"""
import os

import numpy as np

import full
import gen
import lib
import numeric
import robots as rob

RULE = ("Random expressions over inputs, parameters, functions and earlier added functions (scalar, row, column, matrix, sparse, constant) are added through compute_userDefined before the robot is "
        "finalised and with add_function after, under new and existing names, with allowed and refused overwriting, with missing and unknown arguments, in models and generated classes, with "
        "changes of state and symbolic parameters between; values are compared with the expression evaluated in numpy on values taken from an untouched robot, the list of functions with "
        "what was added, every other function with the untouched robot. Distinct: expressions, names, histories differ.")

NAMES = ["energy", "f0", "a", "Mdq", "T_0_mid", "q0_dist2", "Z9", "tau_ref", "err_norm", "my_long_function_name_1", "J2", "dist", "Ma", "M_", "Yr2", "G1", "reg", "C0"]
NAMES = [n for n in NAMES if not n.endswith("_")]


class E:
    """expression: tokens, shape, value and magnitude of intermediate results"""

    def __init__(self, tok, shape, f, leaves):
        self.tok, self.shape, self.f, self.leaves = tok, shape, f, leaves

    def ev(self, env):
        return self.f(env)


def leaf(name, key, shape):
    """key: where the value is found in the environment"""
    return E("m " + name, shape, lambda env: (env[key], np.abs(env[key]) + 1e-3), {key})


def const(r, shape):
    v = np.round(r.normal(0, 2, shape), 3)
    if r.random() < .2:
        v = v * (r.random(shape) < .5)
    return E("const " + lib.matx(v), shape, lambda env: (v, np.abs(v)), set())


def un(op, a):
    sh, l = a.shape, a.leaves
    if op == "T":
        return E("T " + a.tok, sh[::-1], lambda e: tuple(x.T for x in a.ev(e)), l)
    if op in ("sin", "cos"):
        f = getattr(np, op)
        def g(e):
            v, m = a.ev(e)
            return f(v), 1 + m
        return E(op + " " + a.tok, sh, g, l)
    if op == "neg":
        return E("neg " + a.tok, sh, lambda e: (-a.ev(e)[0], a.ev(e)[1]), l)
    if op == "sumsqr":
        def g(e):
            v, m = a.ev(e)
            return np.array([[(v * v).sum()]]), np.array([[(m * m).sum()]])
        return E("sumsqr " + a.tok, (1, 1), g, l)
    if op == "norm2":
        def g(e):
            v, m = a.ev(e)
            n = np.sqrt((v * v).sum())
            return np.array([[n]]), np.array([[np.sqrt((m * m).sum()) + 1e-3]])
        return E("norm2 " + a.tok, (1, 1), g, l)
    if op == "diag":
        if sh[1] == 1:
            return E("diag " + a.tok, (sh[0], sh[0]), lambda e: tuple(np.diag(x.ravel()) for x in a.ev(e)), l)
        return E("diag " + a.tok, (sh[0], 1), lambda e: tuple(np.diag(x).reshape(-1, 1) for x in a.ev(e)), l)
    raise KeyError(op)


def bi(op, a, b):
    l = a.leaves | b.leaves
    def g(f, h, sh):
        def k(e):
            (v, m), (w, n) = a.ev(e), b.ev(e)
            return f(v, w), h(m, n)
        return E("%s %s %s" % (op, a.tok, b.tok), sh, k, l)
    if op == "add":
        return g(np.add, np.add, a.shape)
    if op == "sub":
        return g(np.subtract, np.add, a.shape)
    if op == "emul":
        return g(np.multiply, np.multiply, a.shape)
    if op == "mul":
        return g(np.matmul, np.matmul, (a.shape[0], b.shape[1]))
    if op == "vcat":
        f = lambda x, y: np.vstack([x, y])
        return g(f, f, (a.shape[0] + b.shape[0], a.shape[1]))
    if op == "hcat":
        f = lambda x, y: np.hstack([x, y])
        return g(f, f, (a.shape[0], a.shape[1] + b.shape[1]))
    raise KeyError(op)


def el(a, i, j):
    return E("el %d %d %s" % (i, j, a.tok), (1, 1), lambda e: tuple(x[i:i + 1, j:j + 1] for x in a.ev(e)), a.leaves)


def sparse(n, a):
    def put(x):
        o = np.zeros((n, n))
        o[n - 1, 0] = x[0, 0]
        return o
    return E("sparse %d %s" % (n, a.tok), (n, n), lambda e: tuple(put(x) for x in a.ev(e)), a.leaves)


def grow(r, leaves, depth):
    """random expression over some of the leaves"""
    if depth == 0 or r.random() < .1:
        if r.random() < .12 or not leaves:
            return const(r, (int(r.integers(1, 4)), int(r.integers(1, 4))))
        return leaves[r.integers(len(leaves))]
    a = grow(r, leaves, depth - 1)
    k = int(r.integers(13))
    if k == 0:
        return un("T", a)
    if k in (1, 2):
        return un(["sin", "cos"][k - 1], a)
    if k == 3:
        return un("neg", a)
    if k == 4:
        return un("sumsqr", a)
    if k == 5 and 1 in a.shape:
        return un("norm2", a)
    if k == 6 and (a.shape[1] == 1 or a.shape[0] == a.shape[1]) and a.shape[0] < 8:
        return un("diag", a)
    if k == 7:
        return el(a, int(r.integers(a.shape[0])), int(r.integers(a.shape[1])))
    if k == 8:
        return sparse(int(r.integers(2, 5)), a)
    b = grow(r, leaves, depth - 1)
    if k == 9 or k == 12:
        if a.shape[1] == b.shape[0]:
            return bi("mul", a, b)
        if a.shape[0] == b.shape[0] and max(a.shape[1], b.shape[1]) < 12:
            return bi("mul", un("T", a), b)
        return bi("mul", un("T", a), a) if a.shape[1] < 12 else un("sumsqr", a)
    if a.shape == b.shape:
        return bi(["add", "sub", "emul"][int(r.integers(3))], a, b)
    if k == 10 and a.shape[0] == b.shape[0] and a.shape[1] + b.shape[1] < 14:
        return bi("hcat", a, b)
    if k == 11 and a.shape[1] == b.shape[1] and a.shape[0] + b.shape[0] < 40:
        return bi("vcat", a, b)
    return bi("emul", a, const(r, a.shape))


# descriptions are free text
DESCR = ["", "what I want", "distance (m), 100% & more: q^2 {x}", 'the "real" one \\ of two \\', "two\nlines */ here", '"']


class World:
    """the functions a robot must have: name -> (args, shape, description), and how to evaluate the added ones"""

    def __init__(self, r, rb, info):
        self.r, self.rb = r, rb
        self.base = {f[0]: f for f in info["funs"]}
        self.funs = {f[0]: (list(f[1]), list(f[2]), f[3]) for f in info["funs"]}
        self.mine = {}
        self.inputs = {k: s for k, s in info["model"].items() if k in ("q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w") or rb["ELASTIC"] and k in ("x", "dx", "ddx", "ddxr") and rb["nej"]}
        self.count = 0

    def leaves(self, stage, names=None):
        out = [leaf(k, k, tuple(s)) for k, s in self.inputs.items()]
        for g in full.groups(self.rb):
            k = full.ARG[g]
            m = np.array(self.rb["symb"][g], bool)
            size = m.size if stage == "pre" else int(m.sum())
            if size and not (g == "gravity" and self.rb["gravity"] is None):
                out.append(leaf(k, stage + ":" + k, (size, 1)))
        for n, (a, s, d) in self.funs.items():
            if names is not None and n not in names and n not in self.mine:
                continue
            if n in self.mine:
                e = self.mine[n][0]
                out.append(E("m " + n, e.shape, e.f, {"fun:" + n}))
                out.append(out[-1])
            elif s[0] * s[1] <= 42:
                out.append(leaf(n, n, tuple(s)))
        return out

    def args_of(self, e):
        need = set()
        for k in e.leaves:
            if k.startswith("fun:"):
                need |= set(self.mine[k[4:]][1])
            elif ":" in k:
                p = k.split(":")[1]
                g = {a: b for a, b in rob.PARAMS}[p]
                if any(self.rb["symb"][g]):
                    need.add(p)
            elif k in self.base:
                need |= set(self.base[k][1])
            else:
                need.add(k)
        return need

    def pick(self, stage, names=None):
        r = self.r
        ls = self.leaves(stage, names)
        few = [ls[r.integers(len(ls))] for _ in range(3)]
        for _ in range(20):
            e = grow(r, few, int(r.integers(1, 4)))
            if 0 < e.shape[0] * e.shape[1] <= 150:
                return e
        return few[0]

    def flat(self, e):
        """leaves of the untouched robot that the value needs"""
        out = set()
        for k in e.leaves:
            out |= self.mine[k[4:]][2] if k.startswith("fun:") else {k}
        return out

    def addition(self, stage, names=None):
        """one addition: (line after the robot, expected result); the world afterwards is what must be seen"""
        r = self.r
        e = self.pick(stage, names)
        args = sorted(self.args_of(e))
        extra = [k for k in self.inputs if k not in args]
        if extra and r.random() < .2:
            args.append(extra[r.integers(len(extra))])
        r.shuffle(args)
        args = [str(a) for a in args]
        k = int(r.integers(12))
        self.count += 1
        descr = DESCR[int(r.integers(3))] + " %d" % self.count
        if self.count % 5 == 0:
            descr = DESCR[3 + self.count // 5 % 3]
        old = sorted(self.funs)
        name, over = NAMES[int(r.integers(len(NAMES)))], int(r.random() < .7)
        result = 1
        if k == 0:                      # refused: exists
            name = (old + sorted(self.inputs))[int(r.integers(len(old) + len(self.inputs)))]
            over = 0
            result = 0
        elif k == 1 and old:            # replaces a function of the robot
            name, over = old[int(r.integers(len(old)))], 1
        elif k == 2:                    # argument that nobody knows
            args.insert(int(r.integers(len(args) + 1)), "nothing")
            over = 1
            name = (old + [name])[int(r.integers(len(old) + 1))]
            result = 0
        elif k == 3 and self.args_of(e):    # argument missing
            need = sorted(self.args_of(e) & set(args))
            # an argument is needed when the value depends on it: take one of the inputs that are leaves themselves
            sure = [x for x in need if x in e.leaves and self.smooth(e)]
            if sure:
                args = [a for a in args if a != sure[0]]
                result = None
                over = 1
                name = (old + [name])[int(r.integers(len(old) + 1))]
        if result == 1 and name in self.funs and not over:
            result = 0
        if result == 1:
            self.mine[name] = (e, args, self.flat(e))
            self.funs[name] = (args, list(e.shape), descr)
        return [name, over, lib.enc(descr), lib.lst(args), e.tok], result

    def smooth(self, e):
        """an expression whose value certainly contains its leaves"""
        t = e.tok.split()
        return "const" not in t and "el" not in t and "sparse" not in t and "diag" not in t and "sub" not in t and "emul" not in t and "mul" not in t


def environment(W, cur, st, s, get):
    """values of all leaves"""
    rb = W.rb
    env = {}
    for k in W.inputs:
        env[k] = np.reshape(st[k][s], (-1, 1))
    for g in full.groups(rb):
        k = full.ARG[g]
        m = np.array(rb["symb"][g], bool)
        env["pre:" + k] = cur[g].reshape(-1, 1)
        env["post:" + k] = cur[g][m].reshape(-1, 1)
    env.update(get)
    return env


def calm(rb, seed, idx, S):
    """states of moderate size, for every input"""
    r = rob.rng_of("c21s", seed, idx)
    st = {}
    for k in ("q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr"):
        st[k] = r.uniform(-2, 2, (S, rb["n"]))
    for k in ("x", "dx", "ddx", "ddxr"):
        st[k] = r.uniform(-2, 2, (S, rb["nej"]))
    st["w"] = r.uniform(-2, 2, (S, 6))
    return st


def check_value(c, key, W, name, env, got, tol, where):
    e = W.mine[name][0]
    v, m = e.ev(env)
    c.num(key, got, v, tol * (1 + m), "%s: %s = %s" % (where, name, e.tok[:200]))


def check_info(c, key, W, info, where):
    have = {f[0]: f for f in info["funs"]}
    if not c.eq(key, sorted(have), sorted(W.funs), where + ": names of functions"):
        return
    for n, (a, s, d) in W.funs.items():
        f = have[n]
        c.eq(key, (list(f[1]), list(f[2]), f[3]), (list(a), list(s), d), where + ": arguments, size and description of " + n)


def user_yaml(lines, r):
    return "user_functions:\n" + "".join("  - '%s'\n" % " ".join(str(t) for t in l) for l in lines)


def kw_of(i, quick=True):
    Q = rob.picker(0, i)
    return dict(n=Q("n", [1, 2, 3]) if i % 8 != 6 else 5, elastic=Q("elastic", [0, 2, 1]), sym=Q("masks", [None, "full", None, "none", [3, 2, 4]]), inert=0, orders=Q("orders", [[1, 1, 1], [2, 0, 1]]),
                dl=Q("Dl", [1, 0, 2]))


def engine_case(exe, root, seed, idx, steps):
    r = rob.rng_of("c21", seed, idx)
    cwd = os.path.join(root, "c%d" % idx)
    os.makedirs(cwd)
    rb = rob.make_robot(seed, 21000 + idx, **kw_of(idx))
    p0, p1 = cwd + "/plain.yaml", cwd + "/user.yaml"
    with open(p0, "w") as f:
        f.write(rob.to_yaml(rb))
    s0 = lib.Script()
    s0.add("new", "r", "rob", p0)
    s0.add("info", "r")
    r0 = lib.run_script(exe, s0, cwd, "first")
    c = lib.Cmp()
    if not numeric.usable(c, r0, r0[1][1] if r0[1][0] == "J" else None, rb):
        return dict(fail=c.fail, obs=1)
    W = World(r, rb, r0[1][1])
    # ---- before finalisation
    pre, pre_want = [], []
    for _ in range(int(r.integers(0, 6))):
        l, w = W.addition("pre")
        pre.append(l)
        pre_want.append((l[0], w))
    example = rob.picker(seed, idx)("example", [0, 1, 2])
    q0 = r.uniform(-1, 1, rb["n"]) if example == 0 else None
    extra = user_yaml(pre, r) if pre else ""
    if q0 is not None:
        extra += "user_example: 1\nq0: %s\n" % rob.seq(q0)
        if "q0_dist" not in W.funs:
            q = leaf("q", "q", (rb["n"], 1))
            e = E("|q-q0|", (1, 1), lambda env: (np.array([[np.linalg.norm(env["q"].ravel() - q0)]]), np.ones((1, 1))), {"q"})
            W.mine["q0_dist"] = (e, ["q"], {"q"})
            W.funs["q0_dist"] = (["q"], [1, 1], "distance from q0")
    elif example == 1:
        extra += "user_example: 1\n" + ["", "q0: %s\n" % rob.seq([0.] * (rb["n"] - 1)), "q0: %s\n" % rob.seq([0.] * (rb["n"] + 1))][int(r.integers(3))]
    with open(p1, "w") as f:
        f.write(rob.to_yaml(rb, extra=extra))
    st = calm(rb, seed, idx, 4)
    sc = lib.Script()
    sc.add("new", "r", "rob", p0)
    sc.add("new", "u", "rob", p1)
    todo = []
    cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
    sym = {g: np.array(rb["symb"][g], bool) for g in cur}

    def state(s):
        for x in ("r", "u"):
            for k in W.inputs:
                sc.add("set", x, k, lib.vec(st[k][s]))

    def snap(s, where, others=0):
        need = set()
        for v in W.mine.values():
            need |= v[2]
        get = {k: sc.add("get", "r", k) for k in sorted(need) if k in W.base}
        import copy
        w = copy.copy(W)
        w.mine, w.funs = dict(W.mine), dict(W.funs)
        vals = {n: sc.add("get", "u", n) for n in sorted(W.mine)}
        oth = {}
        names = [n for n in sorted(W.base) if n not in W.mine]
        for n in names if others == 0 else r.permutation(names)[:others]:
            oth[str(n)] = (sc.add("get", "r", n), sc.add("get", "u", n))
        todo.append((where, w, {g: v.copy() for g, v in cur.items()}, s, get, vals, oth, sc.add("info", "u")))
    state(0)
    snap(0, "after building with %d functions" % len(pre))
    hist = ["pre %s" % x[0] for x in pre]
    adds = []
    for k in range(steps):
        op = int(r.integers(10))
        if op < 5:
            l, w = W.addition("post")
            adds.append((sc.add("addfun", "u", *l), w, l))
            hist.append("add %s -> %s" % (l[0], w))
        elif op == 5:
            s = int(r.integers(4))
            state(s)
            hist.append("state")
            cs = s
        elif op == 6:
            g = [x for x in cur if sym[x].any()]
            if g:
                g = g[r.integers(len(g))]
                cur[g] = np.where(sym[g], full.draw_group(r, rb, g), cur[g])
                for x in ("r", "u"):
                    sc.add("set", x, full.ARG[g], lib.vec(cur[g][sym[g]]))
                hist.append("set " + full.ARG[g])
        elif op == 7:
            sc.add("copy", "v", "u")
            sc.add("del", "u")
            sc.add("copy", "u", "v")
            sc.add("del", "v")
            hist.append("copy")
        if k % 3 == 2:
            s = int(r.integers(4))
            state(s)
            snap(s, "step %d" % k, 4)
    state(1)
    snap(1, "at the end")
    res = lib.run_script(exe, sc, cwd)
    cr = res.crash()
    if cr:
        c.bad(cr[0], "%s: %s" % (rb["types"], cr[1]))
    out = [l.split() for l in res.out.split("\n") if l.startswith("USER ") and l.split()[1] != "example"]
    got = [(x[1], None if x[2] == "EXC" else int(x[2])) for x in out if len(x) == 3]
    if not cr:
        c.eq("pre:result", got, pre_want, "results of adding before the robot is finalised")
    for i, w, l in adds:
        if i < len(res.rec):
            if w is None:
                c.true("missing argument", res[i][0] == "EXC" or res[i] == ("OK", 0), "adding '%s' without an argument that it needs: %s" % (l, res[i]))
            else:
                c.eq("result", res[i], ("OK", w), "adding %s" % l)
    judge(c, "", todo, res, rb, st, 1e-9)
    return dict(fail=c.fail, obs=c.n, evals=len(todo), sig=[n + " " + str(v) for x in todo for n, v in ((m, y[0].tok) for m, y in x[1].mine.items())], worst=c.worst,
                sample=dict(types=rb["types"], history=hist[:12], expressions=[l[4][:80] for _, _, l in adds[:3]]) if idx % 11 == 3 else None,
                count={"additions": len(adds) + len(pre), "refused": sum(1 for _, w, _ in adds if w != 1) + sum(1 for _, w in pre_want if w != 1), "overwritten_functions": sum(1 for n in W.mine if n in W.base)},
                files={"robot.yaml": open(p1).read(), "script": "\n".join(sc.lines)} if c.fail else {})


def judge(c, label, todo, res, rb, st, tol):
    for where, W, cur, s, get, vals, oth, ii in todo:
        if ii >= len(res.rec):
            break
        g = {k: res.val(i) for k, i in get.items()}
        if any(v is None for v in g.values()):
            c.bad(label + "control", where + ": the untouched robot gives no value")
            break
        env = environment(W, cur, st, s, g)
        for n, i in vals.items():
            check_value(c, label + "value", W, n, env, res.val(i), tol, "%s %s" % (rb["types"], where))
        for n, (a, b) in oth.items():
            if res.val(a) is not None:
                c.num(label + "other functions", res.val(b), res.val(a), 1e-12 * (1 + np.abs(res.val(a)).max()), "%s: %s, which was not touched" % (where, n))
        if res[ii][0] == "J":
            check_info(c, label + "list", W, res[ii][1], where)
        else:
            c.bad(label + "list", where + ": no list of functions")


# ---------------------------------------------------------------- step by step
def steps_case(exe, root, seed, idx):
    """functions added between the computing steps"""
    r = rob.rng_of("c21b", seed, idx)
    cwd = os.path.join(root, "b%d" % idx)
    os.makedirs(cwd)
    rb = rob.make_robot(seed, 22000 + idx, **kw_of(idx + 1))
    p0 = cwd + "/plain.yaml"
    with open(p0, "w") as f:
        f.write(rob.to_yaml(rb))
    stages = ["init", "kin 1", "dyn 1", "reg"]
    s0 = lib.Script()
    s0.add("new", "r", "rob", p0)
    s0.add("info", "r")
    s0.add("newp", "p", p0)
    s0.add("loadconf", "p", p0)
    infos = []
    for w in stages:
        s0.add("step", "p", w)
        infos.append(s0.add("info", "p"))
    r0 = lib.run_script(exe, s0, cwd, "first")
    c = lib.Cmp()
    if not numeric.usable(c, r0, r0[1][1] if r0[1][0] == "J" else None, rb):
        return dict(fail=c.fail, obs=1)
    known = [{f[0] for f in r0[i][1]["funs"]} if r0[i][0] == "J" else set() for i in infos]
    W = World(r, rb, r0[1][1])
    total = dict(W.funs)
    sc = lib.Script()
    sc.add("new", "r", "rob", p0)
    sc.add("newp", "u", p0)
    sc.add("loadconf", "u", p0)
    adds = []
    for k, w in enumerate(stages):
        sc.add("step", "u", w)
        W.funs = {n: v for n, v in total.items() if n in known[k] or n in W.mine}
        for n in W.mine:
            W.funs[n] = (W.mine[n][1], list(W.mine[n][0].shape), W.mine[n][3] if len(W.mine[n]) > 3 else "")
        for _ in range(int(r.integers(1, 4))):
            before = dict(W.mine), dict(W.funs)
            l, want = W.addition("pre", known[k])
            if want == 1 and (l[0] in total):       # later steps would build on the replaced function or replace it
                W.mine, W.funs = before
                continue
            if want == 1:
                W.mine[l[0]] = W.mine[l[0]][:3] + (W.funs[l[0]][2],)
            adds.append((sc.add("addfun", "u", *l), want, l))
    sc.add("step", "u", "fin")
    W.funs = dict(total, **{n: (v[1], list(v[0].shape), v[3]) for n, v in W.mine.items()})
    st = calm(rb, seed, 500 + idx, 2)
    cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
    todo = []
    for s in range(2):
        if s:
            for g in cur:
                m = np.array(rb["symb"][g], bool)
                if m.any():
                    cur[g] = np.where(m, full.draw_group(r, rb, g), cur[g])
                    for x in ("r", "u"):
                        sc.add("set", x, full.ARG[g], lib.vec(cur[g][m]))
        for x in ("r", "u"):
            for k in W.inputs:
                sc.add("set", x, k, lib.vec(st[k][s]))
        need = set()
        for v in W.mine.values():
            need |= v[2]
        get = {k: sc.add("get", "r", k) for k in sorted(need) if k in W.base}
        vals = {n: sc.add("get", "u", n) for n in sorted(W.mine)}
        oth = {n: (sc.add("get", "r", n), sc.add("get", "u", n)) for n in sorted(W.base)}
        todo.append(("steps", W, {g: v.copy() for g, v in cur.items()}, s, get, vals, oth, sc.add("info", "u")))
    res = lib.run_script(exe, sc, cwd)
    cr = res.crash()
    if cr:
        c.bad(cr[0], "%s: %s" % (rb["types"], cr[1]))
    for i, w, l in adds:
        if i < len(res.rec):
            if w is None:
                c.true("missing argument", res[i][0] == "EXC" or res[i] == ("OK", 0), "adding '%s' without an argument that it needs: %s" % (l, res[i]))
            else:
                c.eq("result", res[i], ("OK", w), "adding %s" % l)
    judge(c, "steps:", todo, res, rb, st, 1e-9)
    return dict(fail=c.fail, obs=c.n, evals=2, sig=["steps " + str(v) for x in todo for n, v in ((m, y[0].tok) for m, y in x[1].mine.items())], worst=c.worst, count={"additions": len(adds)},
                files={"robot.yaml": open(p0).read(), "script": "\n".join(sc.lines)} if c.fail else {})


# ---------------------------------------------------------------- generated classes
def class_cases(ck, eng, count, S):
    specs, worlds = [], {}

    def make(i):
        r = rob.rng_of("c21g", ck.seed, i)
        rb = rob.make_robot(ck.seed, 23000 + i, **kw_of(i))
        cwd = ck.scratch.sub("spec%d" % i)
        p0 = cwd + "/plain.yaml"
        with open(p0, "w") as f:
            f.write(rob.to_yaml(rb))
        s0 = lib.Script()
        s0.add("new", "r", "u%d" % i, p0)
        s0.add("info", "r")
        r0 = lib.run_script(eng.exe["engine_driver"], s0, cwd, "first")
        c = lib.Cmp()
        if not numeric.usable(c, r0, r0[1][1] if r0[1][0] == "J" else None, rb):
            ck.take([dict(fail=c.fail, obs=1)])
            return None
        W = World(r, rb, r0[1][1])
        pre, want = [], []
        for _ in range(6 + int(r.integers(0, 6))):
            l, w = W.addition("pre")
            pre.append(l)
            want.append((l[0], w))
        rb = dict(rb, extra=user_yaml(pre, r))
        if i % 2:
            q0 = r.uniform(-1, 1, rb["n"])
            rb["extra"] += "user_example: 1\nq0: %s\n" % rob.seq(q0)
            e = E("|q-q0|", (1, 1), lambda env, q0=q0: (np.array([[np.linalg.norm(env["q"].ravel() - q0)]]), np.ones((1, 1))), {"q"})
            W.mine["q0_dist"] = (e, ["q"], {"q"})
            W.funs["q0_dist"] = (["q"], [1, 1], "distance from q0")
        return "u%d" % i, rb, W, p0
    for x in lib.par(make, range(count)):
        if x:
            specs.append((x[0], x[1]))
            worlds[x[0]] = x[2:]
    fl = gen.Fleet(ck, eng, specs, flags=["-f"], tag="fleet_u")
    fl.report_problems()
    # the same with python bindings, compiled against the stand-in
    stub = ["-I" + lib.HERE + "/stub", "-fsyntax-only"]

    def python(d):
        folder = os.path.join(ck.scratch.sub("py_" + d["name"]), d["name"] + "_generatedFiles")
        rc, o, e, hang = fl.cli.gen(os.path.dirname(folder), d["conf"], "-p")
        src = folder + "/thunder_%s.cpp" % d["name"]
        if not os.path.isfile(src):
            return dict(fail=[("python", "bindings of a robot with user functions are not generated: " + (e + o)[-400:])], obs=1, files={"robot.yaml": d["text"]})
        bad = lib.compile_all([("w", lib.cxx(src, "/dev/null", "plain", stub + ["-I" + folder]))])
        return dict(fail=[("python", "bindings of a robot with user functions do not compile: " + bad["w"][-700:])] if bad else [], obs=1, sig="py" + d["name"],
                    files={"robot.yaml": d["text"]} if bad else {})
    ck.take(lib.par(python, fl.good()[:6]))

    def one(d):
        name, rb = d["name"], d["rb"]
        W, p0 = worlds[name]
        r = rob.rng_of("c21h", ck.seed, name)
        c = lib.Cmp()
        check_info(c, "class:list", W, d["info"], "model of " + name)
        st = calm(rb, ck.seed, 900 + int(name[1:]), S)
        cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
        sym = {g: np.array(rb["symb"][g], bool) for g in cur}
        se, so = lib.Script(), lib.Script()
        se.add("new", "r", name, p0)
        so.add("new", "o", name)
        so.add("o", "loadconf", fl.conf_of(d))
        rows = []
        for s in range(S):
            if s:
                for g in cur:
                    if sym[g].any() and r.random() < .5:
                        cur[g] = np.where(sym[g], full.draw_group(r, rb, g), cur[g])
                        se.add("set", "r", full.ARG[g], lib.vec(cur[g][sym[g]]))
                        w, compact = gen.CLASS_PARAMS[g]
                        so.add("o", "set", w, lib.vec(cur[g][sym[g]] if compact else cur[g]))
            for k in W.inputs:
                se.add("set", "r", k, lib.vec(st[k][s]))
                so.add("o", "set", k, lib.vec(st[k][s]))
            need = set()
            for v in W.mine.values():
                need |= v[2]
            get = {k: se.add("get", "r", k) for k in sorted(need) if k in W.base}
            vals = {n: so.add("o", "get", n) for n in sorted(W.mine)}
            oth = {n: (se.add("get", "r", n), so.add("o", "get", n)) for n in sorted(W.base) if n not in W.mine}
            cas = {}
            for n in W.mine:
                v = []
                for a in W.funs[n][0]:
                    g = {x: y for x, y in rob.PARAMS}.get(a)
                    v.append(lib.vec(cur[g][sym[g]]) if g in cur else lib.vec(st[a][s]))
                cas[n] = se.add("cas", os.path.join(d["folder"], n + ".casadi"), len(v), *v)
            rows.append((s, {g: v.copy() for g, v in cur.items()}, get, vals, oth, cas))
        re_, ro = lib.run_script(eng.exe["engine_driver"], se, d["cwd"], "model"), fl.run(d, so, "class")
        for nm, x in (("model", re_), ("class", ro)):
            cr = x.crash()
            if cr:
                c.bad(nm + ":" + cr[0], "%s of %s: %s" % (nm, rb["types"], cr[1]))
        for s, cu, get, vals, oth, cas in rows:
            g = {k: re_.val(i) for k, i in get.items()}
            if any(v is None for v in g.values()):
                c.bad("class:control", "the untouched robot gives no value")
                break
            env = environment(W, cu, st, s, g)
            for n, i in vals.items():
                if i < len(ro.rec):
                    check_value(c, "class:value", W, n, env, ro.val(i), 1e-8, "generated class of %s" % rb["types"])
            for n, i in cas.items():
                if i < len(re_.rec):
                    check_value(c, "saved:value", W, n, env, re_.val(i), 1e-8, "saved function of %s" % rb["types"])
            for n, (a, b) in oth.items():
                if re_.val(a) is not None and b < len(ro.rec):
                    c.num("class:other functions", ro.val(b), re_.val(a), 1e-8 * (1 + np.abs(re_.val(a)).max()), "generated get_%s, which was not touched" % n)
        return dict(fail=c.fail, obs=c.n, evals=S, sig=["class " + y[0].tok for y in W.mine.values()], worst=c.worst, count={"generated_classes": 1, "exported_functions": len(W.mine)},
                    files={"robot.yaml": d["text"], "script": "\n".join(so.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))


def run(ck):
    quick = ck.tier == "quick"
    # the library with a compute_userDefined that adds what the configuration lists; the one of the repository keeps its example
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"), defs={"userDefined.cpp": ["-Dcompute_userDefined=repo_compute_userDefined"]},
                     more=("user_functions.cpp",), tag="user")
    root = ck.scratch.sub("cases")
    exe = eng.exe["engine_driver"]
    ck.take(lib.run_cases(engine_case, [(exe, root, ck.seed, i, 14 if quick else 30) for i in range(70 if quick else 900)]))
    ck.take(lib.run_cases(steps_case, [(exe, root, ck.seed, i) for i in range(24 if quick else 300)]))
    class_cases(ck, eng, 8 if quick else 40, 3)
