"""Robots generated with the command line program, compiled and used through the class."""
import os

import numpy as np

import lib
import numeric
import robots as rob

# setters of the class for parameters, and whether the class keeps only the symbolic entries
CLASS_PARAMS = {"DH": ("par_DHtable", True), "base": ("par_world2L0", True), "ee": ("par_Ln2EE", True), "gravity": ("par_gravity", True),
                "dyn": ("par_DYN", False), "Dl": ("par_Dl", False), "K": ("par_K", False), "D": ("par_D", False), "Dm": ("par_Dm", False),
                "Mm": ("par_Mm", False)}


class Fleet:
    """a set of robots generated by the CLI, with what the model says about each"""

    def __init__(self, ck, eng, specs, flags=(), flavour="plain", main="gen_driver.cpp", tag="fleet", gen_flags=(), build=True, yaml_kw=None):
        """specs: list of (name, rb)"""
        self.ck = ck
        self.cli = lib.Cli(eng)
        self.root = ck.scratch.sub(tag)
        self.exe_engine = eng.exe["engine_driver"]
        self.robots = {}
        self.prog = lib.GenProgram(ck.scratch, flavour, main, tag + "_prog", gen_flags)

        def one(spec):
            name, rb = spec
            cwd = os.path.join(self.root, name)
            os.makedirs(cwd, exist_ok=True)
            conf = os.path.join(cwd, name + ".yaml")
            text = rob.to_yaml(rb, **(yaml_kw or {}))
            with open(conf, "w") as f:
                f.write(text)
            rc, o, e, hang = self.cli.gen(cwd, conf, *flags)
            folder = os.path.join(cwd, name + "_generatedFiles")
            sc = lib.Script()
            sc.add("new", "r", name, conf)
            sc.add("info", "r")
            r = lib.run_script(self.exe_engine, sc, cwd, "info")
            info = r[1][1] if r[1][0] == "J" else None
            return dict(name=name, rb=rb, cwd=cwd, conf=conf, text=text, folder=folder, rc=rc, out=o, err=e, hang=hang, info=info, res=r)
        for d in lib.par(one, specs):
            self.robots[d["name"]] = d
            need = ["thunder_%s.h", "thunder_%s.cpp", "%s_gen.h", "%s_gen.cpp", "%s_conf.yaml"]
            d["problem"] = None
            if d["hang"]:
                d["problem"] = "generation does not terminate"
            elif lib.sanitizer_report(d["err"]):
                d["problem"] = "generation: " + lib.sanitizer_report(d["err"])[1]
            elif d["info"] is None:
                d["problem"] = "the model of a valid robot is not built: %s %s" % (d["res"][0], d["res"].err[-300:])
            else:
                miss = [m % d["name"] for m in need if not os.path.isfile(os.path.join(d["folder"], m % d["name"]))]
                if miss:
                    d["problem"] = "generation (exit %s) did not write %s: %s" % (d["rc"], miss, (d["err"] + d["out"])[-400:])
            if d["problem"] is None:
                self.prog.add(d["name"], d["folder"], [f[0] for f in d["info"]["funs"]])
        if build:
            self.prog.build()
            for n, log in self.prog.failed.items():
                if n in self.robots:
                    self.robots[n]["problem"] = "generated code does not compile: " + log
            if "link" in self.prog.failed:
                for d in self.robots.values():
                    d["problem"] = d["problem"] or "generated programs do not link: " + self.prog.failed["link"]

    def good(self):
        return [d for d in self.robots.values() if d["problem"] is None]

    def report_problems(self):
        out = []
        for d in self.robots.values():
            if d["problem"]:
                out.append(dict(fail=[("generate", "robot %s %s: %s" % (d["name"], d["rb"]["types"], d["problem"]))], obs=1, sig=None,
                                files={"robot.yaml": d["text"], "log": d["problem"]}))
        self.ck.take(out)

    def conf_of(self, d):
        return os.path.join(d["folder"], d["name"] + "_conf.yaml")

    def run(self, d, sc, tag="s", **kw):
        return lib.run_script(self.prog.exe, sc, d["cwd"], tag, **kw)


def spec_list(ck, count, nmax=3, tag="g", kwf=None, big=None):
    specs = []
    for i in range(count):
        kw = dict(n=1 + rob.quota("n", ck.seed, i, nmax))
        if kwf:
            kw.update(kwf(i))
        if big is not None and i == big:
            kw["n"] = nmax + 1
        specs.append(("%s%d" % (tag, i), rob.make_robot(ck.seed, 1000 + i, **kw)))
    return specs


def numeric_gen(ck, eng, count, S, expect, nmax=3, kwf=None, tag="g", specs=None):
    """generated classes against the reference"""
    fl = Fleet(ck, eng, specs or spec_list(ck, count, nmax, tag, kwf), tag="fleet_" + tag)
    fl.report_problems()

    def one(d):
        rb = d["rb"]
        st = rob.states(rb, ck.seed, 5000 + int(d["name"][len(tag):]), S)
        want = expect(rb, st, S)
        sc = lib.Script()
        sc.add("new", "o", d["name"])
        sc.add("o", "loadconf", fl.conf_of(d))
        idx = []
        for s in range(S):
            for a in numeric.state_args(rb):
                sc.add("o", "set", a, lib.vec(st[a][s]))
            for f in sorted(want):
                idx.append((f, s, sc.add("o", "get", f)))
        res = fl.run(d, sc, "num")
        c = lib.Cmp()
        cr = res.crash()
        if cr:
            c.bad("gen:" + cr[0], "generated class of valid robot %s: %s" % (rb["types"], cr[1]))
        for f, s, i in idx:
            w, tol = want[f]
            tol = np.asarray(tol)
            if i < len(res.rec):
                c.num("gen:" + f, res.val(i), np.asarray(w)[s], tol[s] if tol.ndim else tol, "generated get_%s of %s at state %d" % (f, rb["types"], s))
        return dict(fail=c.fail, obs=c.n, evals=S, sig="gen" + repr(rob.signature(rb)), sample=dict(generated=True, **numeric.sample(rb, st, 3)), worst=c.worst,
                    count={"generated_classes": 1}, files={"robot.yaml": d["text"], "script": "\n".join(sc.lines)} if c.fail else {})
    ck.take(lib.par(one, fl.good()))
    return fl
