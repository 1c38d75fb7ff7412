"""Failed writes are reported"""
import os
import re
import resource
import shutil
import signal
import subprocess

import numpy as np

import gen
import lib
import robots as rob
from checks import c20

RULE = ("Every operation that writes files (command line with every combination of options, saving by the model and by the generated class, parameter-file generator, URDF conversion) is first run "
        "undisturbed, then once for each fault: every operation on an output file (opening, each write, each copy) fails, fails for good, is cut short, is interrupted, or is done by halves; each "
        "file in turn is a directory, a link to a full device or to a missing folder; the size of files is limited. A run that reports what the undisturbed one reports must have written the same "
        "files byte by byte; one that meets only harmless faults must; afterwards the operation is repeated undisturbed. Distinct: operation, fault and place differ.")


def shim(ck):
    so = ck.scratch.path("faultio.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", lib.HERE + "/faultio.c", "-o", so, "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise lib.Inconclusive("faultio.c does not compile: " + p.stderr[-500:])
    return so


def read(d, names=None):
    out = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            if os.path.isfile(p):        # a link to /dev/full is none
                out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out if names is None else {k: v for k, v in out.items() if k in names}


def report(rc, out, err):
    """what a run tells, without numbers (times) and warnings of the loader"""
    return rc, re.sub(r"[0-9.e+-]+", "", out), re.sub(r"[0-9.]+", "", err)


def parse_log(path):
    out = []
    if os.path.exists(path):
        for ln in open(path, errors="replace"):
            f = ln.rstrip("\n").split("\t")
            if len(f) == 5:
                out.append((int(f[0]), f[1], f[2], int(f[3]), f[4]))
    return out


def died(rc, err):
    """killed by something else than an uncaught exception"""
    return rc is not None and rc < 0 and not (rc == -signal.SIGABRT and "terminate called" in err)


HARMLESS = ("eintr", "half")


class Place:
    """a folder in which one operation is run again and again; setup() fills it, outputs() are the files it has to write"""

    def __init__(self, top, cmd, cwd, make):
        self.top, self.cmd, self.cwd, self.make = top, cmd, cwd, make

    def fresh(self):
        if os.path.isdir(self.top):
            shutil.rmtree(self.top)
        os.makedirs(self.top)
        self.make(self.top)

    def run(self, so=None, at=0, kind="", log=None, limit=None):
        env = dict(lib.ENV)
        pre = []
        if so:
            if log and os.path.exists(log):
                os.remove(log)
            env.update(LD_PRELOAD=so, VP_FAULT_DIR=os.path.realpath(self.top), VP_FAULT_AT=str(at), VP_FAULT_KIND=kind, VP_FAULT_LOG=log or "")
        if limit is not None:
            pre = ["/bin/sh", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % limit, "sh"]
        return lib.run_prog(pre + self.cmd, os.path.join(self.top, self.cwd), 150, env)


def place_case(P, so, tag, steps, need, loose=()):
    """all faults of one operation"""
    c = lib.Cmp()
    cnt = dict(faults_injected=0, obstacles=0, harmless=0, reported=0)
    sigs = []
    log = P.top + ".log"
    P.fresh()
    first = read(P.top)
    rc, o, e, hang = P.run(so, log=log)
    if hang or died(rc, e):
        c.bad("undisturbed", "%s: exit %s %s" % (tag, rc, e[-300:]))
        return c, cnt, sigs
    told, good, ops = report(rc, o, e), read(P.top), parse_log(log)
    names = sorted(k for k in good if first.get(k) != good[k])
    c.eq("undisturbed", sorted(os.path.basename(k) for k in names), sorted(need), "%s: files written: %s" % (tag, (o + e)[-300:]))
    if not c.true("undisturbed", len(ops) >= len(names) > 0, "%s: %d operations observed for %d files" % (tag, len(ops), len(names))):
        return c, cnt, sigs

    def form(k, b):        # some hold random numbers
        return re.sub(rb"[-+]?[0-9.]+(e[-+]?[0-9]+)?", b"#", b) if os.path.basename(k) in loose else b

    def complete(now):
        return [k for k in names if k not in now or form(k, now[k]) != form(k, good[k])]

    def judge(what, r, harmless=False):
        rc, o, e, hang = r
        sigs.append(tag + " " + what)
        if hang:
            return c.bad("hang", "%s: %s" % (tag, what))
        rep = lib.sanitizer_report(e)
        if rep or died(rc, e):
            return c.bad("crash", "%s: %s: exit %s %s" % (tag, what, rc, e[-300:]))
        same = report(rc, o, e) == told
        if not same:
            cnt["reported"] += 1
        if harmless:
            c.true("harmless", same, "%s: %s: fails although nothing is lost: exit %s %s" % (tag, what, rc, (o + e)[-300:]))
        if same:
            bad = complete(read(P.top))
            c.true("silent", not bad, "%s: %s: reports success but %s %s" % (tag, what, bad, "is not what an undisturbed run writes" if len(bad) == 1 else "are not what an undisturbed run writes"))
        else:
            c.n += 1

    def again(what):
        r = P.run(so, log=log)
        c.eq("again", report(r[0], r[1], r[2]), told, "%s: undisturbed run after %s" % (tag, what))
        bad = complete(read(P.top))
        c.true("again", not bad, "%s: undisturbed run after %s: %s differ" % (tag, what, bad))

    # every operation, every kind of fault
    todo = []
    for n, call, path, size, _ in ops:
        for kind in ["once", "full"] + (["open"] if call == "open" else ["short"] if call != "sendfile" else []) + (["eintr", "half"] if call in ("write", "writev") else []):
            todo.append((n, call, path, kind))
    for k, (n, call, path, kind) in enumerate(todo):
        if k % steps[1] != steps[0] % steps[1]:
            continue
        P.fresh()
        r = P.run(so, n, kind, log)
        hit = [x for x in parse_log(log) if x[4] != "-"]
        what = "%s of %s (operation %d): %s" % (call, os.path.basename(path), n, kind)
        if not hit:                # programs need not do the same things in the same order
            judge(what + ", not met", r, True)
            continue
        cnt["harmless" if kind in HARMLESS else "faults_injected"] += 1
        judge(what, r, kind in HARMLESS)
        if kind not in HARMLESS and k % 3 == 0:
            again(what)
    # limited sizes
    sizes = sorted({len(good[k]) for k in names})
    for lim in sorted({0, 1} | {s - 1 for s in sizes} | {s // 2 for s in sizes}):
        if (lim + steps[0]) % min(steps[1], 2) and steps[1] > 1:
            continue
        P.fresh()
        cnt["obstacles"] += 1
        judge("size of files limited to %d" % lim, P.run(limit=lim))
    P.fresh()
    judge("size of files limited to %d" % (2 * sizes[-1]), P.run(limit=2 * sizes[-1]), True)
    # things in the place of files
    for i, k in enumerate(names):
        for j, kind in enumerate(("a directory", "a full device", "a link to a missing folder")):
            if (i + j + steps[0]) % min(steps[1], 3) and steps[1] > 1:
                continue
            P.fresh()
            p = os.path.join(P.top, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                os.remove(p)
            if j == 0:
                os.mkdir(p)
            else:
                os.symlink(["/dev/full", "no_such_folder/x"][j - 1], p)
            cnt["obstacles"] += 1
            judge("%s is %s" % (k, kind), P.run())
            os.rmdir(p) if j == 0 else os.remove(p)
            if (i + j) % 2:
                again("%s was %s" % (k, kind))
    shutil.rmtree(P.top)
    return c, cnt, sigs


def cli_case(exe, eng, so, root, seed, idx, steps):
    rb = rob.make_robot(seed, 24000 + idx, n=1 + idx % 2, elastic=[0, 1, 0, 0][idx % 4])
    text = rob.to_yaml(rb)
    flags = [[], ["-p"], ["-f"], ["-c"], ["-p", "-f"], ["-c", "-p"]][idx % 6]
    copy = "-c" in flags

    def make(top):
        os.makedirs(top + "/src/thunder/build")
        if copy:
            for a in ("thunder_robot", "thunder_robot_chrono"):
                for b in ("library", "src", "robots"):
                    os.makedirs(os.path.join(top, "src", a, b))
        with open(top + "/arm.yaml", "w") as f:
            f.write(text)
    P = Place(os.path.join(root, "cli%d_%d" % (idx, steps[0])), [exe, "gen", "../../../arm.yaml"] + flags, "src/thunder/build", make)
    six = ["arm_gen.h", "arm_gen.cpp", "thunder_arm.h", "thunder_arm.cpp", "arm_conf.yaml", "arm_par_REG.yaml"]
    need = six * (3 if copy else 1) + ["CMakeLists.txt"] * ("-p" in flags)
    if "-f" in flags:
        sc = lib.Script()
        conf = os.path.join(root, "f%d_%d.yaml" % (idx, steps[0]))
        with open(conf, "w") as f:
            f.write(text)
        sc.add("new", "r", "arm", conf)
        sc.add("info", "r")
        need += [f[0] + ".casadi" for f in lib.run_script(eng, sc, os.path.join(root, "i%d_%d" % (idx, steps[0])))[1][1]["funs"]]
    c, cnt, sigs = place_case(P, so, "thunder gen %s" % " ".join(flags), steps, need)
    return dict(fail=c.fail, obs=c.n, evals=sum(cnt.values()), sig=sigs, worst={}, count=cnt, sample=dict(flags=flags, types=rb["types"], faults=sigs[:6], **cnt) if steps[0] == 0 and idx < 2 else None,
                files={"arm.yaml": text} if c.fail else {})


def conversion_case(exe, so, root, seed, idx, steps):
    r = rob.rng_of("c24u", seed, idx)
    text, _ = c20.program_file(r, 2 * idx)

    def make(top):
        os.makedirs(top + "/genYAML/yaml")
        os.makedirs(top + "/generatedFiles")
        with open(top + "/genYAML/yaml/inertial.yaml", "w") as f:
            f.write(text)
    P = Place(os.path.join(root, "conv%d_%d" % (idx, steps[0])), [exe], "genYAML", make)
    pert = ["inertial_DH_REG_p%d.yaml" % k for k in (2, 5, 10, 20)]
    c, cnt, sigs = place_case(P, so, "conversion program", steps, ["inertial_DH.yaml", "inertial_DH_DYN.yaml", "inertial_DH_REG.yaml"] + pert, pert)
    return dict(fail=c.fail, obs=c.n, evals=sum(cnt.values()), sig=sigs, worst={}, count=cnt, files={"inertial.yaml": text} if c.fail else {})


KINDS = ["once", "full", "short", "open", "half", "eintr"]


def fault_names(r, count, ops):
    out = [("open", 1), ("once", 2), ("full", 2), ("short", 2), ("half", 2), ("eintr", 2), ("full", 1), ("once", 1)]
    out += [(KINDS[int(r.integers(6))], int(r.integers(2, ops + 2))) for _ in range(count)]
    return out


def same_file(a, b):
    try:
        return open(a, "rb").read() == open(b, "rb").read()
    except OSError:
        return False


def model_case(exe, so, root, seed, idx):
    """saving by the model"""
    r = rob.rng_of("c24m", seed, idx)
    cwd = os.path.join(root, "m%d" % idx)
    os.makedirs(cwd)
    # long robots need several writes for a file
    rb = rob.planar(seed, 24100 + idx, 12, types=["R", "R"] + ["P"] * 10, elastic=0, orders=[1, 1, 1]) if idx % 6 == 5 else rob.make_robot(seed, 24100 + idx, n=1 + idx % 3, elastic=[0, 2, 1][idx % 3])
    conf = os.path.join(cwd, "robot.yaml")
    with open(conf, "w") as f:
        f.write(rob.to_yaml(rb))
    sc = lib.Script()
    sc.add("new", "r", "rob", conf)
    args = [k for k in ("par_REG", "par_DYN", "par_gravity", "par_DHtable")]
    dump = lambda: [sc.add("arg", "r", a) for a in args]
    jobs = []
    OPS = {"saveconf": lambda p: sc.add("saveconf", "r", p), "savepar": lambda p: sc.add("savepar", "r", p), "savereg": lambda p: sc.add("savereg", "r", p),
           "dyn file": lambda p: sc.add("inertial", "rob", rb["n"], conf, p, os.path.join(cwd, "other.yaml")),
           "reg file": lambda p: sc.add("inertial", "rob", rb["n"], conf, os.path.join(cwd, "other.yaml"), p)}
    d0 = dump()
    for op in OPS:
        good = os.path.join(cwd, op.replace(" ", "_") + ".yaml")
        i0 = OPS[op](good)
        for k, (kind, n) in enumerate(fault_names(r, 6, 2 if rb["n"] < 9 else 4)):
            p = os.path.join(cwd, "%s.%d.flt-%s-%d.yaml" % (op.replace(" ", "_"), k, kind, n))
            i1 = OPS[op](p)
            last = os.path.join(cwd, "%s.%d.again.yaml" % (op.replace(" ", "_"), k))
            jobs.append((op, kind, n, good, p, i0, i1, OPS[op](last), last))
    d1 = dump()
    log = os.path.join(cwd, "log")
    res = lib.run_script(exe, sc, cwd, env=dict(lib.ENV, LD_PRELOAD=so, VP_FAULT_DIR=os.path.realpath(cwd), VP_FAULT_LOG=log))
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad("model:" + cr[0], cr[1])
    met = {x[2] for x in parse_log(log) if x[4] not in ("-",) + HARMLESS}
    cnt = dict(faults_injected=0, saves=0)
    for op, kind, n, good, p, i0, i1, i2, last in jobs:
        if max(i0, i1, i2) >= len(res.rec):
            break
        what = "%s of the model, fault %s at operation %d" % (op, kind, n)
        c.eq("model:undisturbed", res[i0], ("OK", 1), op)
        cnt["saves"] += 2
        if os.path.realpath(p) in met:
            cnt["faults_injected"] += 1
            c.eq("model:silent", res[i1], ("OK", 0), what)
        elif res[i1] != ("OK", 0):
            c.true("model:silent", res[i1] == ("OK", 1) and same_file(p, good), "%s: reports success, the file is not complete" % what)
        else:
            c.bad("model:harmless", what + ": reports failure although nothing is lost")
        c.eq("model:again", (res[i2], same_file(last, good)), (("OK", 1), True), "saving again after " + what)
    for a, i, j in zip(args, d0, d1):
        if j < len(res.rec):
            c.same("model:unchanged", res.val(j), res.val(i), a + " after failed saves")
    return dict(fail=c.fail, obs=c.n, sig=["model %d %s %s %d" % (idx, j[0], j[1], j[2]) for j in jobs], worst={}, count=cnt, files={"robot.yaml": open(conf).read(), "script": "\n".join(sc.lines)} if c.fail else {})


def class_cases(ck, eng, so, count):
    specs = gen.spec_list(ck, count, 2, "w", lambda i: dict(elastic=[0, 2, 1][i % 3], sym=[None, "full"][i % 2]))
    specs.append(("wide", rob.planar(ck.seed, 24300, 9, types=["R"] + ["P"] * 8, elastic=0, orders=[1, 1, 1])))
    fl = gen.Fleet(ck, eng, specs, tag="fleet24", gen_flags=["-O0"])
    fl.report_problems()

    def one(d):
        rb = d["rb"]
        r = rob.rng_of("c24k", ck.seed, d["name"])
        cwd = ck.scratch.sub("k_" + d["name"])
        sc = lib.Script()
        sc.add("new", "o", d["name"])
        sc.add("o", "loadconf", fl.conf_of(d))
        dump = lambda: [sc.add("o", "par", a) for a in ("par_REG", "par_DYN", "par_DHtable")]
        jobs = []
        d0 = dump()
        for op in ("savepar", "savereg", "savedyn"):
            good = os.path.join(cwd, op + ".yaml")
            i0 = sc.add("o", op, good)
            for k, (kind, n) in enumerate(fault_names(r, 6, 2 if rb["n"] < 9 else 4)):
                p = os.path.join(cwd, "%s.%d.flt-%s-%d.yaml" % (op, k, kind, n))
                last = os.path.join(cwd, "%s.%d.again.yaml" % (op, k))
                i1 = sc.add("o", op, p)
                jobs.append((op, kind, n, good, p, i0, i1, sc.add("o", op, last), last))
        d1 = dump()
        log = os.path.join(cwd, "log")
        res = lib.run_script(fl.prog.exe, sc, cwd, env=dict(lib.ENV, LD_PRELOAD=so, VP_FAULT_DIR=os.path.realpath(cwd), VP_FAULT_LOG=log))
        c = lib.Cmp()
        cr = res.crash()
        if cr:
            c.bad("class:" + cr[0], cr[1])
        met = {x[2] for x in parse_log(log) if x[4] not in ("-",) + HARMLESS}
        told = res.out + res.err
        # what the class prints about a save without fault, the path left out
        said = {}
        for op, kind, n, good, p, i0, i1, i2, last in jobs:
            said.setdefault(op, {re.sub(re.escape(good), "@", ln) for ln in told.split("\n") if good in ln})
        cnt = dict(faults_injected=0, saves=0)
        for op, kind, n, good, p, i0, i1, i2, last in jobs:
            if max(i0, i1, i2) >= len(res.rec):
                break
            what = "%s of the generated class, fault %s at operation %d" % (op, kind, n)
            says = {re.sub(re.escape(p), "@", ln) for ln in told.split("\n") if p in ln}
            bad = os.path.realpath(p) in met
            cnt["saves"] += 2
            cnt["faults_injected"] += bad
            if op == "savepar":
                c.eq("class:undisturbed", res[i0], ("OK", 1), op)
                c.eq("class:silent" if bad else "class:harmless", res[i1], ("OK", 0 if bad else 1), what)
            elif bad:
                c.true("class:silent", says != said[op] or not says, "%s: reports %s" % (what, sorted(says)))
                c.true("class:silent", any("rror" in x for x in says) or told.lower().count("error") >= cnt["faults_injected"], "%s: no error is reported" % what)
            if not bad:
                c.true("class:harmless", same_file(p, good) and says == said[op], "%s: nothing is lost, but the file is not complete or success is not reported" % what)
            c.true("class:again", same_file(last, good), "saving again after " + what)
        for i, j in zip(d0, d1):
            if j < len(res.rec):
                c.same("class:unchanged", res.val(j), res.val(i), "parameters after failed saves")
        return dict(fail=c.fail, obs=c.n, sig=["class %s %s %s %d" % (d["name"], j[0], j[1], j[2]) for j in jobs], worst={}, count=cnt,
                    files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))


def run(ck):
    quick = ck.tier == "quick"
    so = shim(ck)
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    exe = lib.Cli(eng).exe
    root = ck.scratch.sub("cases")
    parts = 8
    jobs = [(exe, eng.exe["engine_driver"], so, root, ck.seed, i, (k, parts)) for i in range(6 if quick else 24) for k in range(parts if not quick or i in (1, 3) else 3)]
    ck.take(lib.run_cases(cli_case, jobs))
    conv, _ = c20.build_program(ck, "plain")
    ck.take(lib.run_cases(conversion_case, [(conv, so, root, ck.seed, i, (k, 4)) for i in range(1 if quick else 6) for k in range(4)]))
    ck.take(lib.run_cases(model_case, [(eng.exe["engine_driver"], so, root, ck.seed, i) for i in range(12 if quick else 120)]))
    class_cases(ck, eng, so, 3 if quick else 10)
    if not ck.fails and not ck.extra.get("faults_injected"):
        ck.incon.append("no fault was met")
