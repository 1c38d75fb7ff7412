#!/usr/bin/env python3
"""coverage.py [--seed N] [check...]: which lines and branches of the library the checks execute (plain flavour only).
Runs the checks with gcov instrumentation in this process' children and prints the lines of /repo that no check reached."""
import collections
import glob
import gzip
import importlib
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/harness", HERE]
import lib

lib.FLAVOUR["plain"] = lib.FLAVOUR["plain"] + ["--coverage"]
lib.FLAVOUR["asan"] = ["-O0", "--coverage"]
lib.FLAVOUR["glib"] = ["-O0", "--coverage"]
lines, funcs = collections.Counter(), collections.Counter()
branches = collections.Counter()


def collect(sc):
    for root, _, files in os.walk(sc.dir):
        for g in files:
            if not g.endswith(".gcda"):
                continue
            with tempfile.TemporaryDirectory() as d:
                subprocess.run(["gcov", "--json-format", "-b", os.path.join(root, g)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for j in glob.glob(d + "/*.json.gz"):
                    for f in json.load(gzip.open(j))["files"]:
                        if not os.path.realpath(os.path.join(lib.REPO, f["file"])).startswith(lib.REPO):
                            continue
                        for ln in f["lines"]:
                            k = (os.path.relpath(f["file"], lib.REPO), ln["line_number"])
                            lines[k] += ln["count"]
                            for n, b in enumerate(ln["branches"]):
                                if not b.get("throw"):
                                    branches[k + (n, len(ln["branches"]))] += b["count"]
    subprocess.run(["rm", "-rf", sc.dir])


lib.Scratch.close = collect
import run as runner
args = sys.argv[1:]
seed = "1"
if args[:1] == ["--seed"]:
    seed, args = args[1], args[2:]
os.environ["VERIF_SEED"] = seed
for c in args or ["C%02d" % i for i in range(1, 23)]:
    sys.argv = ["run.py", c, "--tier", "quick"]
    try:
        runner.main()
    except SystemExit as e:
        print(c, "exit", e.code, flush=True)
by = collections.defaultdict(list)
for (f, n), k in sorted(lines.items()):
    by[f].append((n, k))
for f, v in by.items():
    miss = [n for n, k in v if not k]
    print("%-50s %5d lines, %4d not reached" % (f, len(v), len(miss)))
    for n in miss:
        print("    %d: %s" % (n, open(os.path.join(lib.REPO, f)).read().splitlines()[n - 1].strip()[:140]))
    half = sorted({n for (g, n, b, t), k in branches.items() if g == f and not k and (f, n) in lines and lines[f, n]})
    print("    lines with a branch not taken: %s" % half)
