"""Building, running, recording and reporting, shared by all checks."""
import concurrent.futures as cf
import glob
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
THUNDER = REPO + "/src/thunder"
CASADI = "/opt/thunder_deps/py/casadi"
TEMPLATE = "/usr/local/share/thunder_dynamics/thunder_robot_template"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
INC = ["-I" + THUNDER + "/library", "-I" + HERE, "-I/usr/include/eigen3"]
LINK = ["-lcasadi", "-lyaml-cpp", "-Wl,-rpath," + CASADI]
FLAVOUR = {
    "plain": ["-O0"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    "pattern": ["-O0", "-ftrivial-auto-var-init=pattern"],
    "zero": ["-O0", "-ftrivial-auto-var-init=zero"],
    "opt": ["-O2"],
    "glib": ["-O0", "-D_GLIBCXX_ASSERTIONS"],
}


class Inconclusive(Exception):
    pass


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def base_env():
    e = dict(os.environ)
    e["CPLUS_INCLUDE_PATH"] = CASADI + "/include"
    e["LIBRARY_PATH"] = CASADI
    e.setdefault("HOME", "/root")
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:report_thread_leaks=0"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


ENV = base_env()


class Scratch:
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % tag, dir="/tmp")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        d = self.path(name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def compile_one(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def cxx(src, obj, flavour="plain", extra=()):
    return ["g++", "-std=c++17", "-w", "-pipe"] + FLAVOUR[flavour] + INC + list(extra) + ["-c", src, "-o", obj]


def par(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def compile_all(jobs):
    """jobs: list of (label, command). Returns {label: log} of the failed ones"""
    def one(j):
        for attempt in (0, 1):
            try:
                rc, log = compile_one(j[1])
            except subprocess.TimeoutExpired:
                rc, log = -9, "compiler timeout"
            if rc == 0:
                return None
            if rc > 0 and "Killed" not in log and "out of memory" not in log and "No space left" not in log:
                break
        return j[0], log
    return dict(x for x in par(one, jobs) if x)


class Engine:
    """the library of /repo and programs linked with it"""

    def __init__(self, scratch, flavour="plain", programs=("engine_driver.cpp",), defs=None, skip=(), more=(), tag="eng"):
        """programs: sources under harness/ or absolute; defs: {basename of a library source: [flags]}; more: sources of the harness to add to the library"""
        self.sc, self.flavour = scratch, flavour
        d = self.dir = scratch.sub(tag + "_" + flavour)
        srcs = sorted(glob.glob(THUNDER + "/src/*.cpp"))
        if not srcs:
            raise Inconclusive("no library sources in " + THUNDER)
        jobs, libobjs = [], []
        for s in srcs:
            if os.path.basename(s) in skip:
                continue
            o = d + "/lib_" + os.path.basename(s)[:-4] + ".o"
            libobjs.append(o)
            jobs.append((s, cxx(s, o, flavour, (defs or {}).get(os.path.basename(s), []))))
        for s in more:
            o = d + "/more_" + s[:-4] + ".o"
            libobjs.append(o)
            jobs.append((s, cxx(os.path.join(HERE, s), o, flavour)))
        pobjs = {}
        for p in programs:
            src = p if os.path.isabs(p) else os.path.join(HERE, p)
            o = d + "/prog_" + os.path.basename(p)[:-4] + ".o"
            pobjs[os.path.basename(p)[:-4]] = o
            jobs.append((src, cxx(src, o, flavour)))
        extra = []
        if flavour == "asan":
            extra = [d + "/nodeepbind.o"]
            jobs.append(("nodeepbind", ["g++", "-O1", "-c", HERE + "/nodeepbind.cpp", "-o", extra[0]]))
        bad = compile_all(jobs)
        if bad:
            k = sorted(bad)[0]
            raise Inconclusive("does not compile: %s\n%s" % (k, bad[k][-3000:]))
        self.libobjs = libobjs
        self.exe = {}
        links = []
        for nm, o in pobjs.items():
            e = d + "/" + nm
            self.exe[nm] = e
            links.append((nm, ["g++"] + FLAVOUR[flavour] + [o] + libobjs + extra + ["-o", e] + LINK))
        bad = compile_all(links)
        if bad:
            k = sorted(bad)[0]
            raise Inconclusive("does not link: %s\n%s" % (k, bad[k][-3000:]))


# ---------------------------------------------------------------- scripts
def enc(s):
    s = str(s)
    return "%e" if s == "" else s.replace(" ", "%20").replace("\n", "%0A")


def vec(v):
    v = [float(x) for x in np.asarray(v, float).ravel()]
    return " ".join([str(len(v))] + [repr(x) for x in v])


def matx(m):
    m = np.atleast_2d(np.asarray(m, float))
    return " ".join([str(m.shape[0]), str(m.shape[1])] + [repr(float(x)) for x in m.ravel()])


def lst(l):
    return " ".join([str(len(l))] + [enc(x) for x in l])


class Script:
    def __init__(self):
        self.lines = []

    def add(self, *tok):
        self.lines.append(" ".join(str(t) for t in tok))
        return len(self.lines) - 1


class Result:
    """records of one run"""

    def __init__(self):
        self.rec, self.rc, self.err, self.out, self.ended, self.hang, self.script = [], None, "", "", False, False, None

    def __getitem__(self, i):
        return self.rec[i] if i < len(self.rec) else ("NONE", None)

    def val(self, i):
        r = self[i]
        return r[1] if r[0] == "V" else None

    def crash(self):
        """None, or (kind, text) when the program did not reach its end normally"""
        if self.hang:
            return "hang", "no progress, killed"
        rep = sanitizer_report(self.err)
        if rep:
            return rep
        if self.rc != 0 or not self.ended:
            sig = ""
            if self.rc is not None and self.rc < 0:
                try:
                    sig = signal.Signals(-self.rc).name
                except ValueError:
                    pass
            return "crash", "exit %s %s at op %d: %s\n%s" % (self.rc, sig, len(self.rec), self.script[len(self.rec)][:200] if len(self.rec) < len(self.script) else "?", self.err[-800:])
        return None


def sanitizer_report(err):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan:" + m.group(1), clip_report(err, m.start())
    m = re.search(r"runtime error: (.{0,160})", err)
    if m:
        return "ubsan", clip_report(err, max(0, m.start() - 200))
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        return "tsan:" + m.group(1).strip(), clip_report(err, m.start())
    m = re.search(r"Assertion '.*' failed", err)
    if m:
        return "assert", clip_report(err, max(0, m.start() - 200))
    return None


def clip_report(err, a):
    return err[a:a + 2500]


def run_prog(cmd, cwd, timeout, env=None, stdin=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o.decode(errors="replace"), e.decode(errors="replace"), True


def parse_records(text):
    rec, ended = [], False
    for ln in text.split("\n"):
        if not ln:
            continue
        k, _, rest = ln.partition(" ")
        if k == "V":
            f = rest.split()
            r, c = int(f[0]), int(f[1])
            v = np.array(f[2:], float)
            if v.size != r * c:
                break
            rec.append(("V", v.reshape(r, c)))
        elif k == "OK":
            rec.append(("OK", int(rest)))
        elif k == "EXC":
            rec.append(("EXC", rest))
        elif k == "J":
            rec.append(("J", json.loads(rest)))
        elif k == "BAD":
            raise Inconclusive("bad script: " + rest)
        elif k == "END":
            ended = True
    return rec, ended


def run_script(exe, script, cwd, tag="s", timeout=150, env=None, wrapper=()):
    """run a driver program on a script; retried once when it hangs"""
    os.makedirs(cwd, exist_ok=True)
    sp, op = os.path.join(cwd, tag + ".script"), os.path.join(cwd, tag + ".records")
    with open(sp, "w") as f:
        f.write("\n".join(script.lines) + "\n")
    for attempt in (0, 1):
        if os.path.exists(op):
            os.remove(op)
        rc, o, e, hang = run_prog(list(wrapper) + [exe, sp, op], cwd, timeout, env)
        if not hang:
            break
    r = Result()
    r.script = script.lines
    text = open(op, errors="replace").read() if os.path.exists(op) else ""
    r.rec, r.ended = parse_records(text)
    r.rc, r.out, r.err, r.hang = rc, o, e, hang
    if "cannot allocate memory" in e.lower() and not sanitizer_report(e):
        raise Inconclusive("out of memory")
    return r


# ---------------------------------------------------------------- generated classes
def ensure_template():
    want = os.path.realpath(THUNDER + "/thunder_robot_template")
    if os.path.realpath(TEMPLATE) != want:
        os.makedirs(os.path.dirname(TEMPLATE), exist_ok=True)
        subprocess.run(["ln", "-sfnT", want, TEMPLATE], check=True)


class Cli:
    """the command line program, compiled from /repo"""

    def __init__(self, engine):
        self.exe = engine.exe["thunder_main"]
        ensure_template()

    def gen(self, cwd, conf, *flags, timeout=150, env=None):
        os.makedirs(cwd, exist_ok=True)
        for attempt in (0, 1):
            rc, o, e, hang = run_prog([self.exe, "gen", conf] + list(flags), cwd, timeout, env)
            if not hang:
                break
        return rc, o, e, hang


class GenProgram:
    """generated classes linked with the driver"""

    def __init__(self, scratch, flavour="plain", main="gen_driver.cpp", tag="gen", gen_flags=(), extra=()):
        self.dir = scratch.sub(tag + "_" + flavour)
        self.flavour, self.main, self.extra = flavour, main, list(extra)
        self.jobs, self.objs, self.failed = [], [], {}
        self.gen_flags = list(gen_flags)
        src = os.path.join(HERE, main)
        o = self.dir + "/" + main[:-4] + ".o"
        self.jobs.append((src, cxx(src, o, flavour, self.extra)))
        self.mainobj = o
        self.classes = {}

    def add(self, name, folder, funs):
        """folder: <name>_generatedFiles"""
        inc = self.dir + "/" + name + ".inc"
        with open(inc, "w") as f:
            f.write("".join("F(%s)\n" % x for x in funs))
        d = self.dir
        objs = []
        for src, o in ((folder + "/thunder_%s.cpp" % name, d + "/w_%s.o" % name), (folder + "/%s_gen.cpp" % name, d + "/g_%s.o" % name)):
            # the address sanitizer puts no guard around thread-local memory: in that flavour (one thread) it becomes static memory
            local = ["-Dthread_local=static"] if self.flavour == "asan" and not src.endswith("_gen.cpp") else []
            self.jobs.append(((name, src), cxx(src, o, self.flavour, ["-I" + folder] + local + (self.gen_flags if src.endswith("_gen.cpp") else []))))
            objs.append(o)
        o = d + "/glue_%s.o" % name
        self.jobs.append(((name, "glue"), cxx(HERE + "/glue.cpp", o, self.flavour, ["-I" + folder, "-DCLS=thunder_" + name, '-DHDR="thunder_%s.h"' % name,
                                                                                       '-DFUNS="%s"' % inc, '-DNAME="%s"' % name])))
        objs.append(o)
        self.classes[name] = objs

    def build(self):
        """compiles and links; self.failed: {robot: log} for those whose code does not compile"""
        bad = compile_all(self.jobs)
        for other in ("-Dthread_local=", None):
            again = [(k, [other if x == "-Dthread_local=static" else x for x in c if other or x != "-Dthread_local=static"]) for k, c in self.jobs
                     if k in bad and "-Dthread_local=static" in c]
            if again:
                for k, c in again:
                    bad.pop(k)
                bad.update(compile_all(again))
        for k, log in bad.items():
            if isinstance(k, tuple):
                self.failed[k[0]] = "%s\n%s" % (k[1], log[-2500:])
            else:
                raise Inconclusive("does not compile: %s\n%s" % (k, log[-2500:]))
        objs = [o for n, os_ in self.classes.items() if n not in self.failed for o in os_]
        self.exe = self.dir + "/" + self.main[:-4]
        bad = compile_all([("link", ["g++"] + FLAVOUR[self.flavour] + [self.mainobj] + objs + ["-o", self.exe, "-lyaml-cpp", "-lpthread"])])
        if bad:
            self.failed["link"] = bad["link"][-2500:]
        return self


# ---------------------------------------------------------------- comparing
class Cmp:
    """compares observations with the oracle; collects what differs"""

    def __init__(self):
        self.fail = []
        self.n = 0
        self.worst = {}

    def bad(self, key, msg):
        self.fail.append((key, msg))

    def num(self, key, got, want, tol, what=""):
        """got: array or None (call gave no value); tol: scalar or broadcastable"""
        self.n += 1
        want = np.asarray(want, float)
        if got is None:
            self.bad(key, "%s: no value returned" % what)
            return False
        got = np.asarray(got, float)
        if got.shape != want.shape:
            self.bad(key, "%s: dimension %s, expected %s" % (what, got.shape, want.shape))
            return False
        tol = np.broadcast_to(np.asarray(tol, float), want.shape)
        with np.errstate(all="ignore"):
            d = np.abs(got - want)
            ok = (d <= tol) | (got == want) | (np.isnan(got) & np.isnan(want))
            r = np.where(tol > 0, d / tol, 0)
            if r.size:
                m = float(np.nanmax(r)) if not np.all(np.isnan(r)) else math.inf
                self.worst[key] = max(self.worst.get(key, 0), m)
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            self.bad(key, "%s: entry %s is %.17g, expected %.17g (tolerance %.3g, %d of %d entries)" % (what, i, got[i], want[i], tol[i], (~ok).sum(), ok.size))
            return False
        return True

    def same(self, key, got, want, what=""):
        """bit-exact"""
        return self.num(key, got, want, 0.0, what)

    def eq(self, key, got, want, what=""):
        self.n += 1
        if got != want:
            self.bad(key, "%s: is %r, expected %r" % (what, str(got)[:400], str(want)[:400]))
            return False
        return True

    def true(self, key, cond, what=""):
        self.n += 1
        if not cond:
            self.bad(key, what)
        return bool(cond)


# ---------------------------------------------------------------- cases in parallel
def _case(args):
    fn, a = args
    t = time.time()
    try:
        r = fn(*a)
    except Inconclusive as e:
        return {"inconclusive": str(e)}
    except Exception as e:          # a broken harness is not a verdict
        import traceback
        return {"inconclusive": "harness: " + traceback.format_exc()[-1500:]}
    r["t"] = time.time() - t
    return r


def run_cases(fn, arglist, jobs=JOBS):
    """fn(*args) -> dict(fail=[(key,msg)], obs=int, sig=hashable, sample=..., files={name: text})"""
    arglist = list(arglist)
    if jobs <= 1 or len(arglist) <= 1:
        return [_case((fn, a)) for a in arglist]
    with cf.ProcessPoolExecutor(jobs) as ex:
        return list(ex.map(_case, [(fn, a) for a in arglist]))


class Check:
    """collects what a check saw, writes the evidence and gives the verdict"""

    def __init__(self, prop, tier, seed, rule):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.t0 = time.time()
        self.evals = self.obs = 0
        self.sigs = set()
        self.samples = []
        self.fails = []
        self.incon = []
        self.extra = {}
        self.worst = {}
        self.scratch = Scratch(prop)

    def take(self, results):
        for r in results:
            if "inconclusive" in r:
                self.incon.append(r["inconclusive"])
                continue
            self.evals += r.get("evals", 1)
            self.obs += r.get("obs", 0)
            s = r.get("sig")
            if s is not None:
                for x in (s if isinstance(s, (list, set)) else [s]):
                    self.sigs.add(x if isinstance(x, str) else repr(x))
            if r.get("sample") is not None and len(self.samples) < 4:
                self.samples.append(r["sample"])
            for k, v in r.get("worst", {}).items():
                self.worst[k] = max(self.worst.get(k, 0), v)
            for k, v in r.get("count", {}).items():
                self.extra[k] = self.extra.get(k, 0) + v
            for key, msg in r["fail"]:
                self.fails.append((key, msg, r.get("files", {})))

    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known-findings")
        if os.path.exists(kf):
            for ln in open(kf):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3)
        new, seen_known = [], set()
        for f in self.fails:
            if f[0] in known:
                seen_known.add(f[0])
            else:
                new.append(f)
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.sigs), "rule": self.rule, "samples": self.samples[:4],
               "observations": self.obs}
        cov.update(self.extra)
        if self.worst:
            cov["worst_error_over_tolerance"] = {k: float("%.3g" % v) for k, v in sorted(self.worst.items())}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ["held on the executions listed, not proved for others"], "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.scratch.close()
        code = 0
        if new:
            byk = {}
            for key, msg, files in new:
                byk.setdefault(key, []).append((msg, files))
            rd = VERIF + "/evidence/replay/" + self.prop
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            for i, (key, l) in enumerate(sorted(byk.items(), key=lambda x: -len(x[1]))[:12]):
                d = rd + "/%02d" % i
                os.makedirs(d)
                with open(d + "/what.txt", "w") as f:
                    f.write("property %s, seed %d, tier %s\n%s (%d occurrences)\n%s\n" % (self.prop, self.seed, self.tier, key, len(l), l[0][0]))
                for nm, text in l[0][1].items():
                    with open(d + "/" + nm.replace("/", "_"), "w") as f:
                        f.write(text)
                print("VIOLATION property=%s replay=%s" % (self.prop, d))
                print("  %s (%d occurrences): %s" % (key, len(l), l[0][0][:600]))
            code = 1
        elif self.incon:
            print("INCONCLUSIVE property=%s: %s" % (self.prop, self.incon[0][:3000]))
            code = 2
        elif not self.obs:
            print("INCONCLUSIVE property=%s: nothing was observed" % self.prop)
            code = 2
        print("%s %s seed=%d: %d cases, %d distinct, %d observations, %d violations, %.1f s" % (self.prop, self.tier, self.seed, self.evals, len(self.sigs), self.obs, len(new), time.time() - self.t0))
        return code
