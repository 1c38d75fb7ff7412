#!/usr/bin/env python3
"""mutate.py [-j N] [--n N] [--seed S] [--out FILE] [--files a,b]: small random changes of /repo's sources, each in a private copy; the checks of the
file are run in turn until one reports a violation. A survivor is either equivalent or behaviour that no check watches: read it and decide."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtest


ROOT = seedtest.ROOT
T = "src/thunder/"
ORDER = {
    T + "src/kinematics.cpp": "C01 C02 C03 C10 C13 C21", T + "src/FrameOffset.cpp": "C01 C20 C12 C18 C14 C17", T + "src/dynamics.cpp": "C04 C06 C05 C07 C09 C10 C12",
    T + "src/regressors.cpp": "C08 C10 C12 C13", T + "src/robot.cpp": "C11 C12 C14 C15 C18 C21 C09 C13 C17 C19", T + "src/utils.cpp": "C20 C13 C19 C21 C15 C17",
    T + "src/userDefined.cpp": "C21", T + "src/genYaml.cpp": "C11 C19 C17", T + "thunder_main.cpp": "C19 C18", T + "thunder_robot_template/thunder_robot.cpp": "C13 C11 C14 C15 C16 C12 C17",
    T + "thunder_robot_template/thunder_robot.h": "C13 C19", "src/genYAML/main_YAML.cpp": "C20 C17", "src/genYAML/src/urdf2dh_inertial.cpp": "C20",
}


def strip(src):
    """source with comments and strings blanked, same length"""
    out, i, n = list(src), 0, len(src)
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
        elif src.startswith("/*", i):
            j = src.find("*/", i) + 2
        elif src[i] == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != "\n":
                out[k] = " " if src[i] != '"' else "_"
        i = j
    return "".join(out)


OPS = [(r" \+ ", " - "), (r" - ", " + "), (r"(?<=\w)\*(?=\w)", "+"), (r"==", "!="), (r"!=", "=="), (r"(?<=[\w)])<(?=[\w])", "<="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[(,\[ ])0(?=[),;\] ])", "1"), (r"(?<=[(,\[+* =])1(?=[),;\] ])", "0"), (r"(?<=[(,\[+* =])([2-9])(?=[),;\] ])", "@inc"),
       (r"\((i|j|k)\)", "(0)"), (r"\((i|j),", "(0,"), (r",(i|j)\)", ",0)"), (r"\[(i|j)\]", "[0]"), (r"\.T\(\)", ""), (r"\.transpose\(\)", ""), (r"= -(?=\w)", "= "),
       (r"size1\(\)", "size2()"), (r"\bif ?\((?=.*\)\s*\{?\s*$)", "@neg"), (r"\+=", "="), (r"\+=", "-="), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\bdq\b", "dqr"), (r"\bq\b(?=[,)])", "dq"),
       (r"\bx\b(?=[,)(])", "dx"), (r"ddq\b", "dq"), (r"\bJvi\b", "Jwi"), (r"(?<=i)\*(\w+)_order", "*1"), (r"^\s*[\w.>\[\](),:<-]+(\s*[+]?= .*|\(.*\));\s*$", "@del"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"),
       (r"return 1;", "return 0;"), (r"return 0;", "return 1;"), (r"numElasticJoints", "numJoints"), (r"\bnej\b", "nj"), (r"\bnj\b", "nej"), (r"STD_PAR_LINK", "(STD_PAR_LINK-1)")]


def mutants(path):
    src = open(os.path.join("/repo", path)).read()
    S = strip(src)
    pos = 0
    for no, ln in enumerate(S.split("\n")):
        full = src[pos:pos + len(ln)]
        if ln.strip() and "cout" not in ln and "cerr" not in ln and not ln.strip().startswith("#") and not re.match(r"^\s*(const |static |auto |int |double |bool |std::|casadi::|Eigen::|string |vector)[\w:<> ,&]+;\s*$", ln):
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, ln):
                    if b == "@inc":
                        new = full[:m.start()] + str(int(m.group(1)) + 1) + full[m.end():]
                    elif b == "@neg":
                        d, j = 0, m.end()
                        while j < len(ln):
                            if ln[j] == "(":
                                d += 1
                            elif ln[j] == ")":
                                if d == 0:
                                    break
                                d -= 1
                            j += 1
                        new = full[:m.end()] + "!(" + full[m.end():j] + ")" + full[j:]
                    elif b == "@del":
                        if re.match(r"^\s*(return|delete|typedef|using|else|const|auto|int|double|bool|std::\w+<.*> \w+|casadi::\w+ \w+|Eigen::\w+ \w+|YAML::\w+ \w+|string \w+)\b", ln):
                            continue
                        new = re.match(r"\s*", full).group(0) + ";"
                    else:
                        new = full[:m.start()] + b + full[m.end():]
                    if new != full:
                        yield dict(file=path, line=no + 1, op=k, col=m.start(), old=full, new=new, pos=pos)
        pos += len(ln) + 1


HIST = ["[]{ static int c_ = 0; return ++c_ % 5 == 3; }()", "[]{ static int c_ = 0; return ++c_ == 2; }()", "[]{ static int c_ = 0; return ++c_ > 20; }()"]
ROBOT = ["robot.get_numJoints() >= 5", "robot.get_jointsType().back()[0] == 'P'", "robot.get_numElasticJoints() == 2", "robot.get_Dl_order() == 3", "robot.get_numJoints() == 1",
         "robot.get_K_order() == 2", "robot.get_jointsType()[0] == \"P_SEA\""]
COND = {"robot.cpp": ["numJoints >= 5", "numElasticJoints == 1", "Dl_order >= 3", "ELASTIC && K_order > 1", "jointsType.back()[0] == 'P'", "numJoints == 1"],
        "thunder_robot.cpp": ["n_joints >= 4", "numElasticJoints == 1", "Dl_order == 2", "n_joints == 1"], "main_YAML.cpp": [], "urdf2dh_inertial.cpp": [], "utils.cpp": [], "FrameOffset.cpp": [], "genYaml.cpp": [], "thunder_main.cpp": ["GEN_PYTHON_FLAG", "nj == 2"]}


def conditional(m, r):
    """the change happens only now and then, for some robots or in some iterations"""
    old, new = m["old"], m["new"]
    if '"//' in old or "// -" in old:
        return None
    if not re.match(r"^\s*[\w.>\[\](),:<-]+(\s*[+]?= .*|\(.*\));\s*(//.*)?$", old) or re.match(r"^\s*(return|delete|else|if|for)\b", old):
        return None
    c = COND.get(os.path.basename(m["file"]), ROBOT) + HIST + ["i >= 2", "i == 1", "i == 0"]
    c = c[r.randrange(len(c))]
    ind = re.match(r"\s*", old).group(0)
    cut = lambda x: re.sub(r"//.*$", "", x.strip()) or ";"
    return dict(m, new="%sif (%s) { %s } else { %s }" % (ind, c, cut(new), cut(old)), cond=c)


def compiles(m):
    """quick look before anything is copied; the template is no source yet"""
    if "template" in m["file"]:
        return True
    src = open(os.path.join("/repo", m["file"])).read()
    d = os.path.dirname(os.path.join("/repo", m["file"]))
    r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I", d, "-I", "/repo/src/thunder/library", "-I", "/repo/src/genYAML/library", "-I", "/usr/include/eigen3", "-I", "/repo/src/thunder/src", "-x", "c++", "-"],
                       input=(src[:m["pos"]] + m["new"] + src[m["pos"] + len(m["old"]):]).encode(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, CPLUS_INCLUDE_PATH="/opt/thunder_deps/py/casadi/include"))
    return r.returncode == 0


def trial(i, m, lock, out):
    if not compiles(m):
        return
    base = "/var/tmp/seedtest/mut%d_%d" % (os.getpid(), i)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    seedtest.sh("cp -a /repo %s/repo && mkdir %s/verif && cd %s && cp -a harness run.py known-findings MANIFEST.json properties.jsonl %s/verif/" % (base, base, ROOT, base))
    p = os.path.join(base, "repo", m["file"])
    src = open(p).read()
    assert src[m["pos"]:m["pos"] + len(m["old"])] == m["old"]
    open(p, "w").write(src[:m["pos"]] + m["new"] + src[m["pos"] + len(m["old"]):])
    m["result"] = "SURVIVED"
    t = time.time()
    for c in ORDER[m["file"]].split() + ("C22 C23 C14 C17".split() if "cond" in m else []):
        rc, o = seedtest.ns(base, "cd /verif && VERIF_SEED=1 timeout 900 ./run.py %s --tier quick" % c)
        v = [x for x in o.splitlines() if x.strip() and ("occurrences" in x)]
        if rc == 1:
            m["result"], m["how"] = "killed " + c, v[:1]
            break
        if rc != 0:
            m["result"], m["how"] = "invalid %s rc=%d" % (c, rc), o[-300:]
            break
    m["time"] = round(time.time() - t)
    shutil.rmtree(base, ignore_errors=True)
    with lock:
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")


def main():
    a = sys.argv[1:]
    o = {"-j": "3", "--n": "100", "--seed": "1", "--out": "/tmp/mutants.jsonl", "--files": ",".join(ORDER), "--cond": "0"}
    while a:
        k = a.pop(0)
        o[k] = a.pop(0)
    per = {f: list(mutants(f)) for f in ORDER if any(x in f for x in o["--files"].split(","))}
    if o["--n"] == "0":
        print({f: len(v) for f, v in per.items()})
        return
    r = random.Random(int(o["--seed"]))
    todo = []
    for v in per.values():
        r.shuffle(v)
    w = {f: len(v) ** .7 for f, v in per.items()}
    tot = sum(w.values())
    for f, v in per.items():
        seen = set()
        if o["--cond"] != "0":
            v = [y for y in (conditional(x, r) for x in v) if y]
        v = [x for x in v if x["line"] not in seen and not seen.add(x["line"])]     # one per line
        todo += v[:max(2, round(int(o["--n"]) * w[f] / tot))]
    r.shuffle(todo)
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(int(o["-j"])) as ex:
        list(ex.map(lambda im: trial(im[0], im[1], lock, o["--out"]), enumerate(todo)))


if __name__ == "__main__":
    main()
