"""Command line generation"""
import os
import re
import shutil
import subprocess

import numpy as np
import yaml

import full
import gen
import lib
import numeric
import ref
import robots as rob
import yamlio

RULE = ("The command line program runs on random robots with every form of configuration path, robot names that are prefixes or parts of each other and of the template's words, and every combination "
        "of options, in a scratch tree: the tree before and after and the files opened for writing (strace) are compared with the expected set, contents with the configuration, repeated runs and "
        "option combinations with each other byte by byte. Generated robots are compiled, linked into one program that includes all headers, and evaluated; python bindings are compiled against a "
        "recording stand-in of pybind11 and every bound method is called and compared. Distinct: names, paths, options and robots differ.")

NAMES = ["r", "r1", "r10", "R1", "r_gen", "robot", "my_robot", "robot2", "robotics", "gen", "thunder", "thunder_robot", "M", "q", "par_DYN", "yaml", "lamy", "Conf", "X_2", "arm_left_2", "THUNDERROBOT", "amy_gen_h", "a_long_robot_name_of_the_left_arm", "a_long_robot_name_of_the_right_arm", "left_of_a_long_robot_name", "x_left_of_a_long_robot_name"]


def snapshot(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(a, x), d) + "/"] = ""
        for f in fs:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def strace_ok():
    try:
        return subprocess.run(["strace", "-f", "-qq", "-e", "trace=openat", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False


CALLS = "open,openat,creat,mkdir,mkdirat,rename,renameat,renameat2,unlink,unlinkat,rmdir,link,linkat,symlink,symlinkat,truncate,chmod,fchmodat,mknod,mknodat"


def written(log, cwd):
    """absolute paths that a traced run created, opened for writing, renamed or removed"""
    out = set()
    for ln in open(log, errors="replace"):
        m = re.search(r"\b(\w+)\((.*)", ln)
        if not m or re.search(r"= -1 E", ln):
            continue
        call, args = m.group(1), m.group(2)
        if call in ("open", "openat") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC", args):
            continue
        paths = re.findall(r'"((?:[^"\\]|\\.)*)"', args)
        if call in ("open", "openat", "creat"):
            paths = paths[:1]
        for p in paths:
            p = os.path.normpath(os.path.join(cwd, p))
            if not p.startswith(("/dev/", "/proc/")):
                out.add(p)
    return out


def gen_files(name, funs, flags):
    want = {"thunder_%s.h" % name, "thunder_%s.cpp" % name, "%s_gen.h" % name, "%s_gen.cpp" % name, "%s_conf.yaml" % name, "%s_par_REG.yaml" % name}
    if flags & {"-p", "--python"}:
        want.add("CMakeLists.txt")
    if flags & {"-f", "--casadifunc"}:
        want |= {f + ".casadi" for f in funs}
    return want


OPTS = [[], ["-p"], ["-f"], ["-p", "-f"], ["--python"], ["--casadifunc", "--python"], ["-f", "-p"]]


def words(name, files, python):
    """what must not remain in generated text"""
    out = []
    for f, t in files.items():
        if not f.endswith((".h", ".cpp", ".txt")):
            continue
        t = t.decode(errors="replace")
        for m in re.findall(r"/\*#-.*?\*/|/\*#|#\*/", re.sub(r"//.*", "", t)):
            if python or "OPTIONAL" not in m and m != "/*#" and m != "#*/":
                out.append("%s: %s" % (f, m))
        if f.startswith("thunder_") or f.endswith(".txt"):
            if "OPTIONAL PYBIND11" in t and python:
                out.append(f + ": include point")
            if "THUNDERROBOT" in t and "THUNDERROBOT" not in name:
                out.append(f + ": THUNDERROBOT")
            if "robot" not in name:
                for w in re.findall(r"\w*thunder_robot\w*|\brobot_gen\b", t):
                    out.append("%s: %s" % (f, w))
    return out


def same_yaml(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same_yaml(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_yaml(x, y) for x, y in zip(a, b))
    return a == b


def cli_case(exe, eng, root, seed, idx, tracing):
    r = rob.rng_of("c19", seed, idx)
    Q = rob.picker(seed, idx)
    rb = rob.make_robot(seed, 19000 + idx, n=Q("n", [1, 2]), elastic=Q("elastic", [0, 2, 1]))
    text = rob.to_yaml(rb, comments=idx % 2, surplus=idx % 3 == 2)
    name = NAMES[idx % len(NAMES)]
    top = os.path.join(root, "t%d" % idx)
    base = os.path.join(top, ["", "work", "my.yaml dir/build.d", "a/b"][idx % 4])
    os.makedirs(base)
    c = lib.Cmp()
    files = {"robot.yaml": text}
    # configuration path
    form = (idx // 2) % 6
    sub = {0: "", 1: "./", 2: "conf/", 3: "../", 4: None, 5: "conf.yaml/x.y/"}[form]
    byname = idx % 3 == 1          # name on the command line or from the file
    fname = "conf_%d.yaml" % idx if byname else name + ".yaml"
    d = os.path.join(top, "abs") if sub is None else os.path.join(base, sub)
    os.makedirs(d, exist_ok=True)
    path = os.path.normpath(os.path.join(d, fname)) if sub is None else sub + fname
    with open(os.path.join(base, path), "w") as f:
        f.write(text)
    flags = OPTS[idx % len(OPTS)] + ([["-n", "--name"][idx % 2], name] if byname else [])
    home = os.path.join(top, "home")
    os.makedirs(home)
    env = dict(lib.ENV, HOME=home, TMPDIR=home, LANG=["C", "C.UTF-8"][idx % 2])
    if idx % 5 == 2:          # services and containers have none
        env.pop("HOME")
    sc = lib.Script()
    sc.add("new", "r", name, lib.enc(os.path.join(base, path)))
    sc.add("info", "r")
    ri = lib.run_script(eng, sc, os.path.join(root, "info%d" % idx))
    funs = [f[0] for f in ri[1][1]["funs"]] if ri[1][0] == "J" else []

    def run(cwd, path, flags, trace=False, late=False):
        log = os.path.join(root, "strace%d" % idx)
        cmd = [exe, "gen", path] + flags if not late else [exe, "gen"] + flags + [path]
        rc, o, e, hang = lib.run_prog((["strace", "-f", "-qq", "-s", "4096", "-o", log, "-e", "trace=" + CALLS] if trace else []) + cmd, cwd, 150, env)
        return o, e, hang, written(log, cwd) if trace and os.path.exists(log) else set()
    before = snapshot(top)
    o, e, hang, wr = run(base, path, flags, tracing and idx % 2 == 0, late=idx % 5 == 3)
    after = snapshot(top)
    what = "thunder gen %s %s" % (path, " ".join(flags))
    out = os.path.relpath(os.path.join(base, name + "_generatedFiles"), top)
    c.true("ends", not hang, what + " does not end")
    c.true("announced", "Library generated" in o, "%s of a valid robot %s does not succeed: %s" % (what, rb["types"], (o + e)[-300:]))
    want = {out + "/"} | {out + "/" + f for f in gen_files(name, funs, set(flags))}
    c.eq("files", sorted(set(after) - set(before)), sorted(want), "files made by " + what)
    c.eq("others", sorted(k for k in before if after.get(k) != before[k]), [], "files changed or removed by " + what)
    bad = sorted(p for p in wr if not (p + "/").startswith(os.path.join(base, name + "_generatedFiles") + "/"))
    c.eq("written", bad, [], "paths outside the folder touched by " + what)
    got = {k[len(out) + 1:]: v for k, v in after.items() if k.startswith(out + "/") and not k.endswith("/")}
    py = bool({"-p", "--python"} & set(flags))
    c.eq("placeholders", words(name, got, py), [], "template text left by " + what)
    # configuration and parameters
    try:
        a, b = yaml.safe_load(got.get(name + "_conf.yaml", b"").decode()), yaml.safe_load(text)
        c.true("conf", same_yaml(a, b), "%s: the configuration file differs from the configuration" % what)
    except (yaml.YAMLError, UnicodeDecodeError) as ex:
        c.bad("conf", "%s: configuration file is not readable: %s" % (what, ex))
    p = os.path.join(top, out, name + "_par_REG.yaml")
    reg = yamlio.inertial(p, yamlio.REG) if os.path.exists(p) else None
    if c.true("parameters", reg is not None and len(reg[1]) == rb["n"], what + ": regressor parameters of the %d links are not in the file" % rb["n"]):
        w = np.asarray(ref.dyn_to_reg(np.array(rb["dyn"], float).ravel())).reshape(-1, 10)
        c.num("parameters", np.array(reg[1]), w, 1e-12 * (1 + np.abs(w).max()), what + ": regressor parameters")
    if py:
        cm = got.get("CMakeLists.txt", b"").decode()
        m = re.search(r"pybind11_add_module\(\s*(\S+)\s+([^)]*)\)", cm)
        c.true("cmake", m is not None and m.group(1) == "thunder_%s_py" % name and set(m.group(2).split()) == {"thunder_%s.cpp" % name, name + "_gen.cpp"}, "%s: module in CMakeLists.txt: %s" % (what, m and m.group(0)))
    # again: same bytes, also over older content and other options
    def differing(cur, skip=()):
        return sorted(k for k in set(cur) | set(got) if cur.get(k) != got.get(k) and k not in skip)
    mode = idx % 4
    if mode == 1:       # older files of another robot and damaged ones
        other = rob.make_robot(seed, 19500 + idx, n=3)
        with open(os.path.join(base, "other.yaml"), "w") as f:
            f.write(rob.to_yaml(other))
        run(base, "other.yaml", ["-n", name] + [x for x in flags if x not in ("-n", "--name", name)])
    elif mode == 2:
        for f in got:
            with open(os.path.join(top, out, f), "ab") as g:
                g.write(b"garbage " * 4000)
    run(base, path, flags)
    cur = {k[len(out) + 1:]: v for k, v in snapshot(top).items() if k.startswith(out + "/") and not k.endswith("/")}
    if mode == 1:       # functions the other robot had in addition stay
        cur = {k: v for k, v in cur.items() if k in got or not k.endswith(".casadi")}
    c.eq("repeated", differing(cur), [], "files that differ after %s is run %s" % (what, ["again", "after another robot of that name", "over damaged files", "again"][mode]))
    # other options in another folder, absolute path
    cw2 = os.path.join(top, "second place")
    os.makedirs(cw2)
    fl2 = OPTS[(idx + 1 + idx // 7) % len(OPTS)]
    run(cw2, os.path.abspath(os.path.join(base, path)), fl2 + ["-n", name])
    got2 = {k: v for k, v in snapshot(os.path.join(cw2, name + "_generatedFiles")).items()} if os.path.isdir(os.path.join(cw2, name + "_generatedFiles")) else {}
    both = gen_files(name, [], set(flags)) & gen_files(name, [], set(fl2)) | ({f + ".casadi" for f in funs} if {"-f", "--casadifunc"} & set(flags) and {"-f", "--casadifunc"} & set(fl2) else set())
    py2 = bool({"-p", "--python"} & set(fl2))
    for f in sorted(both):
        if f == "thunder_%s.cpp" % name and py != py2:
            continue
        c.true("options", got.get(f) == got2.get(f), "%s differs between options %s and %s" % (f, flags, fl2))
    c.eq("files", sorted(got2), sorted(gen_files(name, funs, set(fl2))), "files made with options %s" % fl2)
    return dict(fail=c.fail, obs=c.n, evals=3, sig=repr((name, path if sub is not None else "abs", flags, fl2, mode, rob.signature(rb))), worst=c.worst,
                sample=dict(command=what, types=rb["types"], files=len(got), traced_writes=len(wr)) if idx % 5 == 0 else None,
                count={"command_lines": 3, "traced_writes": len(wr), "files_compared": len(got) + len(cur) + len(got2)}, files=files if c.fail else {})


def copy_case(exe, root, seed, idx):
    """the copy option, in a scratch tree with the layout of the repository"""
    r = rob.rng_of("c19c", seed, idx)
    rb = rob.make_robot(seed, 19700 + idx, n=1 + idx % 2)
    name = NAMES[(3 * idx + 1) % len(NAMES)]
    top = os.path.join(root, "copy%d" % idx)
    cwd = os.path.join(top, "src/thunder/build")
    os.makedirs(cwd)
    for a in ("thunder_robot", "thunder_robot_chrono"):
        for b in ("library", "src", "robots"):
            os.makedirs(os.path.join(top, "src", a, b))
            with open(os.path.join(top, "src", a, b, "other_file"), "w") as f:
                f.write("stays")
    with open(os.path.join(top, "my.yaml"), "w") as f:
        f.write(rob.to_yaml(rb))
    old = idx % 3 == 1
    home = os.path.join(top, "home")
    os.makedirs(home)
    c = lib.Cmp()
    place = {"library": ["%s_gen.h" % name, "thunder_%s.h" % name], "src": ["%s_gen.cpp" % name, "thunder_%s.cpp" % name], "robots": ["%s_conf.yaml" % name, "%s_par_REG.yaml" % name]}
    if old:
        for a in ("thunder_robot", "thunder_robot_chrono"):
            for b in place:
                for f in place[b]:
                    with open(os.path.join(top, "src", a, b, f), "w") as g:
                        g.write("older content " * 9000)
    before = snapshot(top)
    flags = [["-c"], ["--copy", "-p"], ["-f", "-c"]][idx % 3]
    rc, o, e, hang = lib.run_prog([exe, "gen", "../../../my.yaml", "-n", name] + flags, cwd, 150, dict(lib.ENV, HOME=home))
    after = snapshot(top)
    what = "thunder gen %s" % " ".join(flags)
    fold = "src/thunder/build/%s_generatedFiles/" % name
    want = set()
    for a in ("thunder_robot", "thunder_robot_chrono"):
        for b in place:
            for f in place[b]:
                k = "src/%s/%s/%s" % (a, b, f)
                want.add(k)
                if c.true("copied", k in after, "%s: %s is not written" % (what, k)):
                    c.true("copied", after[k] == after.get(fold + f), "%s: %s is not the generated file" % (what, k))
    new = {k for k in after if after[k] != before.get(k) and not k.startswith(fold)}
    c.eq("others", sorted(new - want), [], "other files written by " + what)
    c.eq("others", sorted(k for k in before if k not in after), [], "files removed by " + what)
    return dict(fail=c.fail, obs=c.n, evals=1, sig=repr(("copy", name, flags, old, rb["types"])), worst={}, count={"copies": 1}, files={})


def together_case(exe, root, seed, idx):
    """several robots generated at the same time in one folder"""
    top = os.path.join(root, "tog%d" % idx)
    names = [["r", "r1", "r_gen", "my_robot"], ["robot", "robot2", "r", "R"], ["X_2", "X", "M", "gen"]][idx % 3]
    cwds = [os.path.join(top, "all")] + [os.path.join(top, "only_" + n) for n in names]
    env = dict(lib.ENV, HOME=os.path.join(top, "all"), TMPDIR=os.path.join(top, "all"))
    c, files = lib.Cmp(), {}
    for w in cwds:
        os.makedirs(w)
    flags = [["-p"], ["-f"], ["-p", "-f"], []][idx % 4]
    for k, n in enumerate(names):
        files[n + ".yaml"] = rob.to_yaml(rob.make_robot(seed, 19800 + 10 * idx + k, n=1 + (k + idx) % 3))
        for w in (cwds[0], cwds[k + 1]):
            with open(os.path.join(w, n + ".yaml"), "w") as f:
                f.write(files[n + ".yaml"])
        lib.run_prog([exe, "gen", n + ".yaml"] + flags, cwds[k + 1], 150, env)
    solo = {n: snapshot(os.path.join(cwds[k + 1], n + "_generatedFiles")) for k, n in enumerate(names)}
    rounds = 3
    for m in range(rounds):
        for n in names:
            shutil.rmtree(os.path.join(cwds[0], n + "_generatedFiles"), ignore_errors=True)
        ps = [subprocess.Popen([exe, "gen", n + ".yaml"] + flags, cwd=cwds[0], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for n in names]
        outs = []
        for p in ps:
            try:
                outs.append(p.communicate(timeout=200)[0].decode(errors="replace"))
            except subprocess.TimeoutExpired:
                p.kill()
                outs.append(p.communicate()[0].decode(errors="replace") + " (does not end)")
        for n, o in zip(names, outs):
            got = snapshot(os.path.join(cwds[0], n + "_generatedFiles"))
            c.true("together", len(solo[n]) > 3 and "Library generated" in o, "robot %s is not generated next to %s: %s" % (n, names, o[-200:]))
            c.eq("together", sorted(k for k in set(got) | set(solo[n]) if got.get(k) != solo[n].get(k)), [], "files of robot %s that differ when %s are generated at the same time" % (n, names))
        c.eq("together", sorted(os.listdir(cwds[0])), sorted([n + ".yaml" for n in names] + [n + "_generatedFiles" for n in names]), "entries of the folder after %s were generated at the same time" % names)
    return dict(fail=c.fail, obs=c.n, evals=rounds * len(names), sig=repr(("together", names, flags)), worst={}, count={"concurrent_command_lines": rounds * len(names)}, files=files if c.fail else {})


def refused_case(exe, root, idx):
    """command lines that ask for nothing valid write nothing"""
    cwd = os.path.join(root, "ref%d" % idx)
    os.makedirs(cwd)
    args = [["gen"], ["gen", "--unknown", "x.yaml"], ["gen", "-n"], ["gen", "absent.yaml"], ["gen", "absent/robot.yaml", "-p", "-f"]][idx % 5]
    rc, o, e, hang = lib.run_prog([exe] + args, cwd, 60)
    c = lib.Cmp()
    c.true("ends", not hang, "thunder %s does not end" % args)
    c.eq("files", sorted(os.listdir(cwd)), [], "files made by thunder " + " ".join(args))
    c.true("announced", "Library generated" not in o, "thunder %s announces success" % args)
    return dict(fail=c.fail, obs=c.n, evals=1, sig="refused" + repr(args), worst={})


def linked(ck, eng, quick, names, tag, known=None):
    """several robots in one program, every header in one source, with and without python"""
    specs = []
    for i, nm in enumerate(names):
        specs.append((nm, rob.make_robot(ck.seed, 19900 + 31 * i + len(tag), n=1 + i % 2, elastic=[0, 2, 1][i % 3], orders=[1, 1, 1], dl=i % 2)))
    fl = gen.Fleet(ck, eng, specs, flags=["-p"], tag=tag, build=False)
    # the bindings are compiled against the stand-in; the plain class is generated separately
    stub = ["-I" + lib.HERE + "/stub"]
    plain = gen.Fleet(ck, eng, specs, tag=tag + "plain", build=False)
    pdir = plain.prog.dir
    good = plain.good()
    with open(pdir + "/all.cpp", "w") as f:
        for _ in (0, 1):
            f.write("".join('#include "%s/thunder_%s.h"\n' % (d["folder"], d["name"]) for d in good))
        f.write("".join("int use_%s() { thunder_%s r; return r.get_numJoints(); }\n" % (d["name"], d["name"]) for d in good))
        f.write("extern \"C\" int all_robots() { return 0" + "".join(" + use_%s()" % d["name"] for d in good) + "; }\n")
    plain.prog.jobs.append((("all headers", "all.cpp"), lib.cxx(pdir + "/all.cpp", pdir + "/all.o", "plain")))
    plain.prog.classes["all headers"] = [pdir + "/all.o"]
    plain.prog.build()
    res = []
    for n, log in plain.prog.failed.items():
        twice = set(re.findall(r"multiple definition of `(\w+)'", log))
        key = known if known and n == "link" and twice and all(x.startswith("arm_reg_") for x in twice) else "link"
        res.append(dict(fail=[(key, "robots %s in one program: %s: %s" % (names, n, log[-700:]))], obs=1, sig=None, files={"log": log}))
    if "link" in plain.prog.failed or known is not None:
        ck.take(res or [dict(fail=[], obs=1, sig="link" + repr(names))])
        return
    for d in plain.robots.values():
        if d["problem"]:
            res.append(dict(fail=[("generate", "robot %s: %s" % (d["name"], d["problem"]))], obs=1, sig=None, files={"robot.yaml": d["text"]}))
    ck.take(res)
    # bindings
    bdir = ck.scratch.sub(tag + "_bind")
    jobs = [("driver", lib.cxx(lib.HERE + "/py_driver.cpp", bdir + "/py_driver.o", "plain", stub))]
    objs = [bdir + "/py_driver.o"]
    for d in fl.good():
        for src in ("thunder_%s.cpp" % d["name"], "%s_gen.cpp" % d["name"]):
            o = bdir + "/" + src[:-4] + ".o"
            jobs.append(((d["name"], src), lib.cxx(d["folder"] + "/" + src, o, "plain", stub + ["-I" + d["folder"]])))
            objs.append(o)
    bad = lib.compile_all(jobs)
    for k, log in bad.items():
        if k == "driver":
            raise lib.Inconclusive(log[-2000:])
        ck.take([dict(fail=[("bindings:compile", "python bindings of %s do not compile: %s" % (k, log[-1500:]))], obs=1, sig=None, files={"log": log})])
    if bad:
        return
    exe = bdir + "/py_driver"
    bad = lib.compile_all([("link", ["g++"] + objs + ["-o", exe, "-lyaml-cpp"])])
    if bad:
        ck.take([dict(fail=[("bindings:link", bad["link"][-1500:])], obs=1, sig=None, files={})])
        return
    ck.take(lib.par(lambda d: values(ck, plain, fl, exe, d), good))


METHODS = ["q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w"]


def values(ck, plain, fl, pyexe, d):
    """class linked with the others against the model's reference, bindings against the class"""
    rb, name = d["rb"], d["name"]
    r = rob.rng_of("c19v", ck.seed, name)
    st = rob.states(rb, ck.seed, 77, 3)
    want = full.expect(rb, st)[1]
    funs = [f[0] for f in d["info"]["funs"]]
    so, sp = lib.Script(), lib.Script()
    mod = sp.add("modules")
    cwd = os.path.join(d["cwd"], "val")
    os.makedirs(cwd, exist_ok=True)
    so.add("new", "o", name)
    newp = sp.add("new", "o", "thunder_%s_py" % name, "thunder_" + name)
    pairs, ref_i = [], []

    def both(label, a, b, exact=True):
        pairs.append((label, so.add(*a), sp.add("call", "o", *b)))
    call = lambda f, vecs=(), s="%e", flag=-1: (f, len(vecs), *[lib.vec(v) for v in vecs], s, flag)
    both("load_conf", ("o", "loadconf", plain.conf_of(d)), call("load_conf", (), plain.conf_of(d)))
    n, e = rb["n"], rb["nej"]
    for rnd in range(2):
        for a in METHODS:
            v = st[a][2] if a in st else r.normal(0, 1, n if a == "d4q" else e)
            if a in ("x", "dx", "ddx", "ddxr") and not e:
                v = []
            both("set_" + a, ("o", "set", a, lib.vec(v)), call("set_" + a, [v]))
        for f in sorted(funs):
            both("get_" + f, ("o", "get", f), call("get_" + f))
            if rnd == 0 and f in want:
                ref_i.append((f, pairs[-1][1]))
        if rnd == 1:
            break
        v4 = [r.normal(0, 1, n) for _ in range(4)]
        both("setArguments", ("o", "setArguments", *[lib.vec(v) for v in v4]), call("setArguments", v4))
        for f in ("M", "C", "Yr", "G"):
            both("get_" + f, ("o", "get", f), call("get_" + f))
        for g in full.groups(rb):
            w, compact = gen.CLASS_PARAMS[g]
            m = np.array(rb["symb"][g], bool)
            full_v = full.draw_group(r, rb, g)
            v = full_v[m] if compact else full_v
            if w == "par_DHtable":
                both("get_" + w, ("o", "par", w), call("get_" + w))
                both("set_" + w, ("o", "setDH", lib.matx(np.asarray(v, float).reshape(-1, 1))) if len(v) else ("o", "set", w, lib.vec([])), call("set_" + w, [v]))
            else:
                both("set_" + w, ("o", "set", w, lib.vec(v)), call("set_" + w, [v]))
            both("get_" + w, ("o", "par", w), call("get_" + w))
        for w in ("par_REG", "par_DYN"):
            both("get_" + w, ("o", "par", w), call("get_" + w))
        p1, p2 = [r.uniform(.5, 2, 10 * n) for _ in range(2)]
        both("set_par_DYN", ("o", "setf", "par_DYN", lib.vec(p1), 0), call("set_par_DYN", [p1], "%e", 0))
        for w in ("par_REG", "par_DYN"):
            both("get_" + w, ("o", "par", w), call("get_" + w))
        both("set_par_REG", ("o", "set", "par_REG", lib.vec(p2)), call("set_par_REG", [p2]))
        for w in ("par_REG", "par_DYN"):
            both("get_" + w, ("o", "par", w), call("get_" + w))
        for op, f in (("savereg", "save_par_REG"), ("savedyn", "save_par_DYN"), ("savepar", "save_par")):
            both(f, ("o", op, cwd + "/c_" + op), call(f, (), cwd + "/p_" + op))
    infop = {k: sp.add("call", "o", *call(k)) for k in ("get_numJoints", "get_numParDYN", "get_numParREG")}
    ro = lib.run_script(plain.prog.exe, so, cwd, "class")
    rp = lib.run_script(pyexe, sp, cwd, "bound")
    c = lib.Cmp()
    for nm, x in (("class", ro), ("bindings", rp)):
        cr = x.crash()
        if cr:
            c.bad(nm + ":" + cr[0], "%s of %s: %s" % (nm, name, cr[1]))
    for f, i in ref_i:
        w, tol = want[f]
        tol = np.asarray(tol)
        if i < len(ro.rec):
            c.num("linked:" + f, ro.val(i), np.asarray(w)[2], tol[2] if tol.ndim else tol, "get_%s of robot %s linked with others" % (f, name))
    if rp[mod][0] == "J":
        m = {x[0]: {k[0]: k for k in x[1]} for x in rp[mod][1]}
        if c.true("bindings:module", "thunder_%s_py" % name in m and "thunder_" + name in m["thunder_%s_py" % name], "python module thunder_%s_py with class thunder_%s: modules are %s" % (name, name, {k: list(v) for k, v in m.items()})):
            k = m["thunder_%s_py" % name]["thunder_" + name]
            c.true("bindings:constructor", k[1], "python class of %s cannot be made" % name)
            miss = sorted({"get_" + f for f in funs} - set(k[2]))
            c.eq("bindings:getters", miss, [], "getters of %s without a binding" % name)
    if c.eq("bindings:constructor", rp[newp], ("OK", 1), "python object of " + name):
        for label, i, j in pairs:
            if i >= len(ro.rec) or j >= len(rp.rec):
                break
            if not c.true("bindings:" + label.split("_")[0], rp[j][0] == "V", "bound %s of %s: %s" % (label, name, rp[j])):
                continue
            if ro[i][0] == "V":
                c.same("bindings:value", rp.val(j), ro.val(i), "bound %s of %s against the class" % (label, name))
        for k, i in infop.items():
            c.eq("bindings:info", None if rp.val(i) is None else int(rp.val(i)[0, 0]), n if k == "get_numJoints" else 10 * n, "bound %s of %s" % (k, name))
        for op in ("savereg", "savedyn", "savepar"):
            a, b = cwd + "/c_" + op, cwd + "/p_" + op
            ok = os.path.exists(a) and os.path.exists(b) and open(a).read() == open(b).read()
            c.true("bindings:save", ok, "file written by bound %s of %s differs from the one of the class" % (op, name))
    return dict(fail=c.fail, obs=c.n, evals=1, sig="linked" + name + repr(rob.signature(rb)), worst=c.worst, count={"bound_calls": len(pairs)},
                files={"robot.yaml": d["text"], "class.script": "\n".join(so.lines), "bound.script": "\n".join(sp.lines)} if c.fail else {})


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    lib.ensure_template()
    exe, edrv = eng.exe["thunder_main"], eng.exe["engine_driver"]
    root = ck.scratch.sub("cases")
    tr = strace_ok()
    ck.extra["strace"] = tr
    ck.take(lib.run_cases(cli_case, [(exe, edrv, root, ck.seed, i, tr) for i in range(44 if quick else 400)]))
    ck.take(lib.run_cases(copy_case, [(exe, root, ck.seed, i) for i in range(6 if quick else 40)]))
    ck.take(lib.run_cases(together_case, [(exe, root, ck.seed, i) for i in range(3 if quick else 24)]))
    ck.take(lib.run_cases(refused_case, [(exe, root, i) for i in range(5)]))
    if quick:
        linked(ck, eng, quick, ["r", "r1", "r10", "R1", "my_robot", "r_gen", "robot", "M"] + NAMES[-4:], "lk")
    else:
        for k in range(0, len(NAMES), 6):
            linked(ck, eng, quick, NAMES[k:k + 6] + ["r", "robot"][:(2 if k else 0)], "lk%d" % k)
    linked(ck, eng, quick, ["arm", "arm_reg"], "col", known="arm+arm_reg")
