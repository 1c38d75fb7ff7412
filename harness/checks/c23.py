"""Building a robot step by step"""
import os
import re

import numpy as np

import full
import lib
import numeric
import robots as rob

RULE = ("Robots built from their parts: the building steps in random order, repeated, only some of them, with and without the advanced functions, other robots being built in between. Every step must succeed and add "
        "exactly its functions and those it needs; every function is compared with the numeric reference and with the robot built in one call (arguments, size, description), before and after the symbolic parameters change; "
        "the function objects handed out by the model are evaluated too. Distinct: the steps or the robot differ.")

# step: (functions it must add, steps it needs)
STEPS = {
    "chain": (r"T_.*", ()),
    "jac": (r"J_(\d+|ee)", ("chain",)),
    "kinadv": (r"J_ee_(dot|ddot|pinv)", ("chain", "jac")),
    "mcg": (r"M|C|C_std|G|J_cm_\d+", ("chain",)),
    "friction": (r"dl|Dl\d+", ()),
    "elastic": (r"k|d|dm|Mm|[KD]\d+|Dm\d+", ()),
    "dynder": (r"[MCG]_d?dot", ("chain", "mcg")),
    "Yr": (r"Yr|reg_[MCG]", ("chain", "jac")),
    "regJ": (r"reg_(Jdq|JTw)", ("chain", "jac")),
    "regDl": (r"reg_dl", ("friction",)),
    "regela": (r"reg_(k|d|dm|Mm)", ("elastic",)),
}
WHOLE = {
    "kin 1": ("chain", "jac", "kinadv"), "kin 0": ("chain", "jac"),
    "dyn 1": ("mcg", "friction", "elastic", "dynder"), "dyn 0": ("mcg", "friction", "elastic"),
    "reg": ("Yr", "regJ", "regDl", "regela"),
}


def parts(rb, word):
    """elementary steps of a step, those that the robot has"""
    return [s for s in WHOLE.get(word, (word,)) if applies(rb, s)]


def applies(rb, s):
    if s in ("friction", "regDl"):
        return rb["Dl_order"] > 0
    if s in ("elastic", "regela"):
        return rb["ELASTIC"] and rb["nej"] > 0
    return True


def draw_steps(r, rb):
    words = [w for w in list(STEPS) + list(WHOLE) * 2 if w in WHOLE or applies(rb, w)]
    kind = int(r.integers(4))
    if kind == 0:           # everything, any order
        out = [str(w) for w in r.permutation([w for w in STEPS if applies(rb, w)])]
    elif kind == 1:
        out = [str(w) for w in r.permutation(["kin 1", "dyn 1", "reg"])]
    else:
        out = [str(w) for w in r.choice(words, int(r.integers(1, 6)))]
    if kind == 3:
        out += out[:2]
    return out


def case(exe, root, seed, idx, S):
    r = rob.rng_of("c23", seed, idx)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 23000 + idx, nmax=4, big=7 if idx % 5 == 0 else 0, elastic=Q("elastic", [2, 0, 1, 0]), dl=Q("Dl", [2, 0, 1]), orders=Q("orders", [[2, 1, 3], [1, 2, 0], [0, 1, 1]]))
    st = rob.states(rb, seed, idx, S)
    cwd = os.path.join(root, "c%d" % idx)
    path, text = numeric.write_conf(cwd, rb)
    plan = draw_steps(r, rb)
    names, _ = full.expect(rb, st)
    sc = lib.Script()
    ref_first = bool(r.integers(2))
    if ref_first:
        sc.add("new", "r", "rob", path)
    sc.add("newp", "u", path)
    sc.add("loadconf", "u", path)
    sc.add("step", "u", "init")
    done, have, marks = set(), set(), []
    for k, w in enumerate(plan):
        if r.random() < .2:         # somebody else builds a robot in between
            d = rob.decoy(rb, r)
            p = os.path.join(cwd, "other%d.yaml" % k)
            with open(p, "w") as f:
                f.write(rob.to_yaml(d))
            sc.add("new", "o%d" % k, "rob", p)
        i = sc.add("step", "u", w)
        own = parts(rb, w)
        need = set(own)
        for s in own:
            need |= set(STEPS[s][1])
        marks.append((w, i, sc.add("info", "u"), [STEPS[s][0] for s in own], [STEPS[s][0] for s in need]))
    sc.add("step", "u", "fin")
    ilast = sc.add("info", "u")
    if not ref_first:
        sc.add("new", "r", "rob", path)
    iref = sc.add("info", "r")
    cur = {g: np.array(rob.full_values(rb, g)) for g in full.groups(rb)}
    must = set()
    for w, i, ii, own, need in marks:
        must |= {f for f in names if any(re.fullmatch(x, f) for x in own)}
    rounds = []
    for m in range(2):
        if m:
            for g in cur:
                mk = np.array(rb["symb"][g], bool)
                if mk.any() and g != "gravity" or mk.any() and rb["gravity"] is not None:
                    cur[g] = np.where(mk, full.draw_group(r, rb, g), cur[g])
                    sc.add("set", "u", full.ARG[g], lib.vec(cur[g][mk]))
        idxs = {}
        for s in range(S):
            numeric.set_state(sc, "u", rb, st, s)
            for f in sorted(must):
                idxs[f, s] = sc.add("get", "u", f), sc.add("fobj", "u", f) if (s + m) % 2 == 0 else None
        rounds.append(({g: v.copy() for g, v in cur.items()}, idxs))
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad(cr[0], "%s built by %s: %s" % (rb["types"], plan, cr[1]))
    where = "robot %s built by %s" % ("/".join(rb["types"]), ", ".join(plan))
    prev = set()
    for w, i, ii, own, need in marks:
        if all(applies(rb, s) for s in WHOLE.get(w, ())):     # dyn reports 0 for a robot without friction or elasticity
            c.eq("step " + w, res[i], ("OK", 1), where + ": result of " + w)
        if res[ii][0] != "J":
            continue
        now = {f[0] for f in res[ii][1]["funs"]}
        own_n = {f for f in names if any(re.fullmatch(x, f) for x in own)}
        need_n = {f for f in names if any(re.fullmatch(x, f) for x in need)}
        c.eq("lost", sorted(prev - now), [], where + ": functions that %s removed" % w)
        c.eq("added", sorted(own_n - now), [], where + ": functions missing after %s" % w)
        c.eq("foreign", sorted(now - prev - need_n), [], where + ": functions of other steps added by %s" % w)
        prev = now
    n = 0
    if res[ilast][0] == "J" and res[iref][0] == "J":
        a = {f[0]: f[1:] for f in res[ilast][1]["funs"]}
        b = {f[0]: f[1:] for f in res[iref][1]["funs"]}
        for f in sorted(set(a) & set(b)):
            c.eq("interface", a[f], b[f], where + ": arguments, size and description of " + f)
        for vals, idxs in rounds:
            rb2 = full.merge(rb, vals)
            _, want = full.expect(rb2, st)
            for (f, s), (i, j) in idxs.items():
                if f not in want:
                    continue
                v, tol = np.asarray(want[f][0], float)[s], np.asarray(want[f][1], float)
                tol = tol[s] if tol.ndim else tol
                c.num("value " + f, res.val(i), v, tol, "%s: %s at state %d" % (where, f, s))
                n += 1
                if j is not None:
                    c.num("object " + f, res.val(j), v, tol, "%s: function object of %s at state %d" % (where, f, s))
                    n += 1
    elif not cr:
        c.bad("refused", where + ": the robot was not built")
    return dict(fail=c.fail, obs=n + len(marks) * 4, evals=2 * S, sig=repr((rob.signature(rb), plan)), worst=c.worst,
                count=dict({"steps": len(plan)}, **{"step_" + w.replace(" ", "_"): 1 for w in plan}), sample=dict(types=rb["types"], steps=plan) if idx % 9 == 0 else None,
                files={"robot.yaml": text, "script": "\n".join(sc.lines)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    N, S = (120, 3) if quick else (1500, 6)
    eng = lib.Engine(ck.scratch, programs=("steps_driver.cpp",))
    ck.take(lib.run_cases(case, [(eng.exe["steps_driver"], ck.scratch.sub("cases"), ck.seed, i, S) for i in range(N)]))
