"""Symbolic selectivity"""
import os

import numpy as np

import full
import gen
import lib
import numeric
import robots as rob

RULE = ("Random robots with none, all, one, all but one or random entries of each of ten parameter groups symbolic; every function of the model and of generated classes is compared with "
        "the reference of the same values, then again after random symbolic entries were changed (fixed entries offered other values must keep theirs); argument lists, stored entries and "
        "the set of functions are compared with the masks. Distinct: masks, joint types and orders differ.")


def masks(rb, g):
    return np.array(rb["symb"][g], bool)


def plan(rb, r, rounds):
    """rounds of changes: list of {group: new full values of that group, fixed entries unchanged}; cumulative values"""
    cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
    out = []
    gs = [g for g in full.groups(rb) if masks(rb, g).any() and not (g == "gravity" and rb["gravity"] is None)]
    for k in range(rounds):
        ch = {}
        for g in gs:
            if r.random() < (.35 if len(gs) > 3 else .7):
                m = masks(rb, g)
                pick = m & (r.random(m.size) < .6)
                if not pick.any():
                    pick = m.copy()
                new = full.draw_group(r, rb, g)
                ch[g] = np.where(pick, new, cur[g])
        cur = {**cur, **ch}
        out.append((ch, dict(cur)))
    return out


def structure(c, rb, info, names, label):
    have = {f[0]: f for f in info["funs"]}
    c.eq(label + "functions", sorted(have), sorted(names), "functions of robot %s with masks %s" % (rb["types"], {g: sum(v) for g, v in rb["symb"].items()}))
    arg2g = {a: g for a, g in rob.PARAMS}
    for f in have.values():
        for a in f[1]:
            if a in arg2g:
                c.true(label + "args", any(rb["symb"][arg2g[a]]), "%s takes %s, which has no symbolic entry" % (f[0], a))


def engine_case(exe, root, seed, idx, S, rounds, kw):
    rb = rob.make_robot(seed, idx, **kw)
    st = rob.states(rb, seed, idx, S)
    r = rob.rng_of("c12", seed, idx)
    cwd = os.path.join(root, "c%d" % idx)
    conf, text = numeric.write_conf(cwd, rb)
    names, want0 = full.expect(rb, st)
    sc = lib.Script()
    company = numeric.Company(sc, cwd, rb, st, S, text, sorted(want0))
    company(-1)
    sc.add("new", "r", "rob", conf)
    ii = sc.add("info", "r")
    company(0)
    def ask(s, want, store):
        numeric.set_state(sc, "r", rb, st, s)
        for f in sorted(want):
            store.append((f, s, sc.add("get", "r", f)))
    def args(store):
        for g in full.groups(rb):
            store.append((g, sc.add("arg", "r", full.ARG[g])))
    steps = [(rb, want0, [], [], {}, [])]
    for s in range(S):
        ask(s, want0, steps[0][2])
    args(steps[0][3])
    for k, (ch, cur) in enumerate(plan(rb, r, rounds)):
        if k == 1:
            company(1)
        rets = []
        for g, v in ch.items():
            if g == "dyn" and r.random() < .4:
                other = np.where(masks(rb, g), v, full.draw_group(r, rb, g))
                rets.append(sc.add("setn", "r", "par_DYN", lib.vec(other)))
            else:
                rets.append(sc.add("set", "r", full.ARG[g], lib.vec(v[masks(rb, g)])))
        rb2 = full.merge(rb, cur)
        w = full.expect(rb2, st)[1]
        e = (rb2, w, [], [], ch, rets)
        args(e[3])
        ask(k % S, w, e[2])
        args(e[3])
        steps.append(e)
    res = lib.run_script(exe, sc, cwd)
    info = res[ii][1] if res[ii][0] == "J" else None
    c = lib.Cmp()
    obs = judge(c, res, info, rb, names, steps, "")
    return dict(fail=c.fail, obs=c.n, evals=len(steps), sig=rob.signature(rb), sample=dict(changed=[sorted(e[4]) for e in steps[1:]], **numeric.sample(rb, None)) if idx % 7 == 3 else None,
                worst=c.worst, files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def judge(c, res, info, rb, names, steps, label):
    if not numeric.usable(c, res, info, rb):
        return
    structure(c, rb, info, names, label)
    for k, (rb2, want, got, ar, ch, rets) in enumerate(steps):
        where = "robot %s, change %d of %s" % (rb["types"], k, {g: int(sum(rb["symb"][g])) for g in ch})
        for i in rets:
            c.eq(label + "set", res[i], ("OK", 1), where + ": setting symbolic entries")
        for g, i in ar:
            v = res.val(i)
            m = masks(rb, g)
            c.same(label + "entries:" + g, None if v is None else v.ravel(), np.array(rob.full_values(rb2, g))[m], where + ": stored entries of " + full.ARG[g])
        for f, s, i in got:
            w, tol = want[f]
            tol = np.asarray(tol)
            c.num(label + f, res.val(i), np.asarray(w)[s], tol[s] if tol.ndim else tol, where + ": %s at state %d" % (f, s))


def class_cases(ck, eng, count, S, rounds):
    def kwf(i):
        Q = rob.picker(ck.seed, i)
        return dict(elastic=Q("elastic", [0, 2, 1, 2]), dl=Q("Dl", [1, 2, 0, 3]), orders=Q("orders", [[1, 2, 1], [2, 1, 2], [2, 1, 1]]),
                    sym=Q("masks", [None, None, [2, 3, 2, 4, 2], "full", None, [3, 2, 4]]))
    fl = gen.Fleet(ck, eng, gen.spec_list(ck, count, 3, "m", kwf), tag="fleet")
    fl.report_problems()

    def one(d):
        rb = d["rb"]
        st = rob.states(rb, ck.seed, d["name"], S) if False else rob.states(rb, ck.seed, int(d["name"][1:]) + 7000, S)
        r = rob.rng_of("c12w", ck.seed, d["name"])
        names, want0 = full.expect(rb, st)
        sc = lib.Script()
        sc.add("new", "o", d["name"])
        sc.add("o", "loadconf", fl.conf_of(d))
        todo = []
        def ask(rb2, want, s, where):
            for a in numeric.state_args(rb):
                sc.add("o", "set", a, lib.vec(st[a][s]))
            for f in sorted(want):
                todo.append((where, f, sc.add("o", "get", f), np.asarray(want[f][0])[s], np.broadcast_to(np.asarray(want[f][1]), np.asarray(want[f][1]).shape)))
                t = np.asarray(want[f][1])
                todo[-1] = (where, f, todo[-1][2], todo[-1][3], t[s] if t.ndim else t)
        for s in range(S):
            ask(rb, want0, s, "configured values")
        for k, (ch, cur) in enumerate(plan(rb, r, rounds)):
            for g, v in ch.items():
                w, compact = gen.CLASS_PARAMS[g]
                m = masks(rb, g)
                if compact:
                    sc.add("o", "set", w, lib.vec(v[m]))
                else:
                    other = full.draw_group(r, rb, g)
                    sc.add("o", "set", w, lib.vec(np.where(m, v, other)))
            rb2 = full.merge(rb, cur)
            ask(rb2, full.expect(rb2, st)[1], k % S, "change %d of %s" % (k, sorted(ch)))
        res = fl.run(d, sc, "mask")
        c = lib.Cmp()
        cr = res.crash()
        if cr:
            c.bad("class:" + cr[0], "generated class of %s: %s" % (rb["types"], cr[1]))
        for where, f, i, w, t in todo:
            if i < len(res.rec):
                c.num("class:" + f, res.val(i), w, t, "generated class of %s, %s: get_%s" % (rb["types"], where, f))
        structure(c, rb, d["info"], names, "")
        return dict(fail=c.fail, obs=c.n, evals=rounds + 1, sig="class" + repr(rob.signature(rb)), worst=c.worst, count={"generated_classes": 1},
                    files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))


def kwf(i):
    Q = rob.picker(0, i)
    return dict(zeros=True, n=10 + i % 2 if i % 30 == 13 else Q("n", [1, 2, 3]) if i % 8 else 4, elastic=Q("elastic", [0, 2, 1, 2, 0]),
                sym=Q("masks", [None, None, None, "full", [2, 3, 4, 1], "none", [3], [4, 2, 3]]), inert=Q("inertia", [0, 0, 2]))


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    root = ck.scratch.sub("cases")
    N, S, R = (90, 2, 4) if quick else (1500, 3, 8)
    ck.take(lib.run_cases(engine_case, [(eng.exe["engine_driver"], root, ck.seed, i, S, R, kwf(i)) for i in range(N)]))
    class_cases(ck, eng, 8 if quick else 32, 2, 6 if quick else 20)
