"""The robot descriptions that come with the repository"""
import glob
import os

import numpy as np
import yaml

import full
import gen
import lib
import numeric
import ref
import robots as rob

RULE = ("Every robot description shipped in the repository is read by a parser of its own, built by the model as it is and as variants with the same structure (other masks and values), and every function is compared "
        "with the numeric reference; the smaller ones are generated, compiled and compared as classes too, with the parameters that the command line writes next to them. Distinct: file and variant differ.")

KEYS = ["mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]


def shipped():
    """robot descriptions: yaml files under a folder called robots which describe joints and links"""
    out = []
    for p in sorted(glob.glob(lib.REPO + "/robots/*/*.yaml") + glob.glob(lib.THUNDER + "/robots/*/*.yaml")):
        with open(p) as f:
            y = yaml.safe_load(f)
        if isinstance(y, dict) and "num_joints" in y and "dynamics" in y and "kinematics" in y:
            out.append((os.path.relpath(p, lib.REPO), y))
    return out


def parse(y):
    n = y["num_joints"]
    types = y["type_joints"]
    flag = bool(y.get("ELASTIC_MODEL", False))
    nej = sum(t.endswith("_SEA") for t in types)
    sy = {}

    def flags(node, size, key="symb"):
        s = list((node or {}).get(key) or [])
        return [int(x) for x in s] if s else [0] * size
    rb = dict(n=n, types=types, ELASTIC=flag, nej=nej)
    rb["DH"] = [float(x) for x in y["kinematics"]["DH"]]
    sy["DH"] = flags(y["kinematics"], 4 * n)
    g = y.get("gravity")
    rb["gravity"] = [float(x) for x in g["value"]] if g else None
    sy["gravity"] = flags(g, 3)
    for k, d in (("Base_to_L0", "base"), ("Ln_to_EE", "ee")):
        rb[d] = [float(x) for x in list(y[k]["tr"]) + list(y[k]["ypr"])]
        sy[d] = flags(y[k], 6)
    dlo = int(y.get("Dl_order", 0))
    links = list(y["dynamics"].values())[:n]
    rb["dyn"] = [[float(l["inertial"][k]) for k in KEYS] for l in links]
    sy["dyn"] = [x for l in links for x in flags(l["inertial"], 10)]
    rb["Dl_order"] = dlo
    rb["Dl"] = [[float(x) for x in l["friction"]["Dl"][:dlo]] if dlo else [] for l in links]
    sy["Dl"] = [x for l in links for x in (flags(l["friction"], dlo)[:dlo] if dlo else [])]
    e = (y.get("elastic") or {}) if flag else {}
    joints = list((e.get("joints") or {}).values())[:nej] if flag else []
    for k in ("K", "D", "Dm"):
        o = int(e.get(k + "_order", 0))
        rb[k + "_order"] = o
        rb[k] = [[float(x) for x in j[k][:o]] if o else [] for j in joints]
        sy[k] = [x for j in joints for x in (flags(j, o, k + "_symb")[:o] if o else [])]
    rb["Mm"] = [float(j["Mm"]) for j in joints]
    sy["Mm"] = [int(j.get("Mm_symb", 0)) for j in joints]
    rb["symb"] = sy
    return rb


def case(exe, root, seed, idx, rel, y, variant, S):
    rb = parse(y)
    r = rob.rng_of("c22", seed, idx, variant)
    text = None
    if variant:                 # same robot with other values and masks
        for g in full.groups(rb):
            if g == "gravity" and rb["gravity"] is None:
                continue
            v = np.array(rob.full_values(rb, g))
            if r.random() < .7:
                rb = rob.with_values(rb, g, v * r.uniform(.5, 1.5, v.size) if g in ("DH", "dyn", "K", "D", "Dm", "Dl", "Mm") else full.draw_group(r, rb, g))
            rb["symb"] = dict(rb["symb"])
            m = int(r.integers(0, 4)) if rb["n"] < 7 else 0
            rb["symb"][g] = rob.mask(r, v.size, m)
        rb["symb"] = {g: (v if g in full.groups(rb) else [0] * len(v)) for g, v in rb["symb"].items()}
        rb["yaml"] = int(r.integers(64))
        text = rob.to_yaml(rb)
    cwd = os.path.join(root, "s%d_%d" % (idx, variant))
    os.makedirs(cwd)
    st = rob.states(rb, seed, 22000 + idx, S)
    names, want = full.expect(rb, st)
    path = os.path.join(lib.REPO, rel)
    if text:
        path = os.path.join(cwd, "robot.yaml")
        with open(path, "w") as f:
            f.write(text)
    sc = lib.Script()
    sc.add("new", "r", "rob", path)
    ii = sc.add("info", "r")
    ix = {f: [] for f in want}
    for s in range(S):
        numeric.set_state(sc, "r", rb, st, s)
        for f in sorted(want):
            ix[f].append(sc.add("get", "r", f))
    par = {g: sc.add("arg", "r", full.ARG[g]) for g in full.groups(rb)}
    reg = sc.add("getreg", "r")
    res = lib.run_script(exe, sc, cwd, timeout=600)
    info = res[ii][1] if res[ii][0] == "J" else None
    vals = {f: [res.val(i) for i in ix[f]] for f in want}
    c = lib.Cmp()
    obs = numeric.compare(c, rb, st, S, vals, info, res, names, want, ".*")
    if info is not None and not res.crash():
        for g, i in par.items():
            m = np.array(rb["symb"][g], bool)
            if m.any():
                v = res.val(i)
                c.same("parameters", None if v is None else v.ravel(), np.array(rob.full_values(rb, g))[m], "symbolic values of %s in %s" % (g, rel))
        if len(set(rb["types"])) and reg < len(res.rec) and res.val(reg) is not None:
            w = ref.dyn_to_reg(rob.full_values(rb, "dyn"))
            c.num("parREG", res.val(reg)[:, 0], w, 1e-12 * (1 + np.abs(w).max()), "regressor parameters of %s" % rel)
    return dict(fail=[(k, "%s%s: %s" % (rel, " (variant %d)" % variant if variant else "", m)) for k, m in c.fail], obs=obs, evals=S, sig=(rel, variant), worst=c.worst,
                sample=dict(numeric.sample(rb, None), file=rel), files={"robot.yaml": text or open(path).read()} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    exe = eng.exe["engine_driver"]
    root = ck.scratch.sub("cases")
    files = shipped()
    jobs = []
    for i, (rel, y) in enumerate(files):
        n = y["num_joints"]
        for v in range((3 if n <= 5 else 1) if quick else 6):
            jobs.append((n, (exe, root, ck.seed, i, rel, y, v, 4 if n > 7 else 6)))
    jobs.sort(key=lambda j: -j[0])
    ck.take(lib.run_cases(case, [j for _, j in jobs]))
    # generated classes, with the files that the command line writes
    most = 3 if quick else 8
    specs = []
    for i, (rel, y) in enumerate(files):
        if y["num_joints"] <= most or quick and "ego" in rel:
            rb = parse(y)
            rb["raw"] = open(os.path.join(lib.REPO, rel)).read()
            specs.append(("s%d" % i, rb))
    gen.numeric_gen(ck, eng, 0, 4, lambda rb, st, S: full.expect(rb, st)[1], tag="s", specs=specs)
