#!/usr/bin/env python3
"""seedtest.py make|test [-j N] [--check-only] [id...]: write seeded/<id> from tools/seeds.py, and try them on private copies of /repo and /verif.
Each trial runs in its own mount namespace with the copies bound over /repo and /verif, so nothing of the real trees is touched."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ORIG = "3970c33"
TMP = "/tmp/seedtest"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    wt = os.path.join(TMP, "mk_" + s["id"])
    os.makedirs(TMP, exist_ok=True)
    shutil.rmtree(wt, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", wt])
    for f, old, new, *times in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == (times or [1])[0], (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", wt, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    o, n = set(), 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            o = set(sh(["git", "-C", wt, "show", "%s:%s" % (ORIG, l[6:])]).stdout.splitlines())
        elif l.startswith("-") and l[1:].strip():
            n += 1
            if l[1:] not in o:
                print(s["id"], "WARNING: not an original line:", l[1:])
    if not n:
        print(s["id"], "WARNING: removes no line")
    shutil.rmtree(wt)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            os.remove(os.path.join(d, f))
    L = os.path.join(HERE, "seedlib")
    for f in ("demo.hpp", "common.sh"):
        shutil.copy(os.path.join(L, f), d)
    for f, t in s["files"].items():
        open(os.path.join(d, f), "w").write(t)
    if "demo.sh" not in s["files"]:
        shutil.copy(os.path.join(L, "engine.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def ns(base, cmd, timeout=1500):
    """run cmd with base/repo over /repo and base/verif over /verif"""
    sc = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && mkdir -p %s/tmp && mount --bind %s/tmp /tmp && cd /repo && %s" % (base, base, base, base, cmd)
    try:
        r = sh(["unshare", "-Urm", "sh", "-c", sc], timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trial(i, props, only_check, tier):
    base = "/var/tmp/seedtest/" + i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh("cp -a /repo %s/repo && mkdir %s/verif && cd %s && git archive HEAD | tar x -C %s/verif && cp -a harness run.py known-findings seeded %s/verif/" % (base, base, ROOT, base, base))
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    # the folder of the demonstration lies elsewhere
    sh("mkdir -p %s/tmp/dd && cp -r %s/. %s/tmp/dd/ && rm -f %s/tmp/dd/patch.diff %s/tmp/dd/meta.json" % (base, d, base, base, base))
    out = dict(id=i, prop=meta["property"])
    log = open("/var/tmp/seedtest/%s.log" % i, "w")

    def step(name, cmd, timeout=1500):
        t = time.time()
        rc, o = ns(base, cmd, timeout)
        log.write("=== %s rc=%s %.0f s\n%s\n" % (name, rc, time.time() - t, o))
        log.flush()
        out[name] = rc
        return rc, o
    if not only_check:
        step("demo0", "timeout 300 bash /tmp/dd/demo.sh")
    rc, o = sh(["git", "-C", base + "/repo", "apply", os.path.join(d, "patch.diff")]).returncode, ""
    out["apply"] = rc
    if not only_check:
        step("build", "bash /opt/vp/build.sh")
        step("demo1", "timeout 300 bash /tmp/dd/demo.sh")
        rc, o = step("test", "bash /opt/vp/test.sh /tmp/out.json")
        try:
            passed = set(json.load(open(base + "/tmp/out.json"))["passed"])
            out["tests"] = "ok" if set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= passed else "FAIL"
        except Exception as e:
            out["tests"] = str(e)
    for p in props or [meta["property"]]:
        t = time.time()
        rc, o = step("check_" + p, "cd /verif && VERIF_SEED=1 timeout 900 ./run.py %s --tier %s" % (p, tier))
        out["check_" + p] = "%s (%d s)" % ("CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in o else "missed rc=%d" % rc, time.time() - t)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        if v:
            out["v_" + p] = v[0][:200]
    shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(out), flush=True)
    return out


def main():
    a = sys.argv[1:]
    mode = a.pop(0)
    j = 3
    props, only, tier = [], False, "quick"
    ids = []
    while a:
        x = a.pop(0)
        if x == "-j":
            j = int(a.pop(0))
        elif x == "--props":
            props = a.pop(0).split(",")
        elif x == "--check-only":
            only = True
        elif x == "--tier":
            tier = a.pop(0)
        else:
            ids.append(x)
    sys.path.insert(0, HERE)
    import seeds
    if mode == "make":
        for s in seeds.SEEDS:
            if not ids or s["id"] in ids:
                make(s)
        return
    os.makedirs("/var/tmp/seedtest", exist_ok=True)
    ids = ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with cf.ThreadPoolExecutor(j) as ex:
        list(ex.map(lambda i: trial(i, props, only, tier), ids))


if __name__ == "__main__":
    main()
