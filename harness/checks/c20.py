"""Rotations, frame offsets and body transforms"""
import os
import subprocess

import numpy as np
import yaml

import gen
import lib
import ref
import robots as rob
import yamlio

RULE = ("The helpers of the library, of generated classes and of the conversion program are called with special, random and huge angles and random bodies; rotations are compared with products of "
        "elementary rotations, moved and merged bodies with the mass, first moment and inertia of clouds of point masses that are moved and united, frame offsets with the kinematics and with the "
        "base and end-effector transforms of models. The conversion program runs on random and damaged files; what it writes is compared with the rigid motion that its documented "
        "Denavit-Hartenberg table implies. Distinct: different angles, bodies, files.")

GY = lib.REPO + "/src/genYAML"
# documented table: a, alpha, d
TABLE = [(0, -np.pi / 2, .333), (0, np.pi / 2, 0), (.0825, np.pi / 2, .316), (-.0825, -np.pi / 2, 0), (0, np.pi / 2, .384), (.088, np.pi / 2, 0), (0, 0, .107)]


def rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def rpy(v):
    return rz(v[2]) @ ry(v[1]) @ rx(v[0])


def ypr(v):
    return rz(v[0]) @ ry(v[1]) @ rx(v[2])


def hat(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def hom(R, p):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = p
    return T


def i6(I):
    return [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]


def angles(r, style):
    if style == 0:
        return [float(rob.SPECIAL[r.integers(len(rob.SPECIAL))]) for _ in range(3)]
    if style == 1:
        return list(map(float, r.uniform(-np.pi, np.pi, 3)))
    if style == 2:                      # one angle at a time
        v = [0., 0., 0.]
        v[r.integers(3)] = float(r.uniform(-7, 7))
        return v
    if style == 3:
        return list(map(float, r.uniform(-1, 1, 3) * 10 ** r.uniform(-9, 4)))
    return [float(rob.SPECIAL[r.integers(len(rob.SPECIAL))]) if r.random() < .5 else float(r.uniform(-7, 7)) for _ in range(3)]


class Cloud:
    """point masses in a link frame"""

    def __init__(self, m, p):
        self.m, self.p = m, p

    @staticmethod
    def make(r, scale=1.0):
        k = 4 + int(r.integers(5))
        m = r.uniform(.05, 2, k) * 10 ** r.uniform(-3, 2)
        return Cloud(m, (r.normal(0, .3, (k, 3)) + r.uniform(-1, 1, 3)) * scale)

    def about(self):
        """mass, centre of mass, inertia about it"""
        M = self.m.sum()
        c = self.m @ self.p / M
        d = self.p - c
        I = np.einsum("k,kij->ij", self.m, (d * d).sum(1)[:, None, None] * np.eye(3) - d[:, :, None] * d[:, None, :])
        return M, c, I

    def moved(self, R, d):
        return Cloud(self.m, self.p @ R.T + d)

    def joined(self, o):
        return Cloud(np.concatenate([self.m, o.m]), np.concatenate([self.p, o.p]))

    def link(self, name, tilt):
        """as the properties of a link: the inertia is written in axes turned by tilt"""
        M, c, I = self.about()
        T = rpy(tilt)
        return " ".join([lib.enc(name), repr(float(M)), lib.vec(i6(T.T @ I @ T)), lib.vec(c), lib.vec(tilt)])

    def ten(self):
        M, c, I = self.about()
        return np.array([M, *c, *i6(I)])

    def scale(self):
        """sizes of the entries of ten()"""
        M = np.abs(self.m).sum()
        s = np.abs(self.p).max() + 1e-3
        return np.array([M, s, s, s] + [M * s * s] * 6)


def helper_case(exe, kind, root, seed, idx, N):
    """kind: lib, urdf or class"""
    r = rob.rng_of("c20", seed, kind, idx)
    cwd = os.path.join(root, kind + str(idx))
    sc, want = lib.Script(), []

    def ask(key, w, tol, *tok):
        want.append((sc.add(*tok), key, np.asarray(w, float), tol))
    for k in range(N):
        a = angles(r, (k + idx) % 5)
        big = 1 + max(map(abs, a))
        t = 4e-15 * big
        ask("rpyRot", rpy(a), t, "rpy", lib.vec(a))
        v6 = r.normal(0, 10 ** r.uniform(-3, 3), 6)
        ask("createI", ref.sym6(v6), 0, "inertia", lib.vec(v6))
        v3 = r.normal(0, 10 ** r.uniform(-3, 3), 3)
        ask("hat", hat(v3), 0, "hat", lib.vec(v3))
        if kind == "class":
            continue
        tilt, d = angles(r, (k + 2) % 5), r.uniform(-1, 1, 3) * (k % 4 > 0)
        big = max(big, 1 + max(map(abs, tilt)))
        b = Cloud.make(r)
        mv = b.moved(rpy(a), d)
        s = mv.scale() + b.scale()
        ask("move", [mv.ten()], [list(1e-13 * big * s)], "move", lib.vec(d), lib.vec(a), b.link("link", tilt))
        a2, d2 = angles(r, (k + 3) % 5), r.uniform(-1, 1, 3)
        big = max(big, 1 + max(map(abs, a2)))
        mv = mv.moved(rpy(a2), d2)
        ask("moves in a row", [mv.ten()], [list(2e-13 * big * (s + mv.scale()))], "move2", lib.vec(d), lib.vec(a), lib.vec(d2), lib.vec(a2), b.link("link", tilt))
        o, p = Cloud.make(r), Cloud.make(r)
        if k % 5 == 0:
            o = Cloud(o.m * 1e-9, o.p)
        z = [0, 0, 0]
        for x, y in ((b, o), (o, b)):
            m = x.joined(y)
            ask("merge", [m.ten()], [list(1e-13 * (m.scale()))], "merge", x.link("x", z), y.link("y", z))
        for x, y, w in ((b, o, p), (p, b, o), (o, p, b)):
            m = x.joined(y).joined(w)
            ask("merge of three", [m.ten()], [list(2e-13 * m.scale())], "merge3", x.link("x", z), y.link("y", z), w.link("w", z))
        if k % 4 == 0:                  # a body without mass adds nothing
            none = "none 0.0 %s %s %s" % (lib.vec([0] * 6), lib.vec(r.normal(0, 1, 3)), lib.vec(z))
            for pair in ((b.link("x", z), none), (none, b.link("x", z))):
                ask("merge with nothing", [b.ten()], [list(1e-13 * b.scale())], "merge", *pair)
        if kind != "lib":
            continue
        ask("hat", hat(v3), 0, "hatsx", lib.vec(v3))
        for op, f in (("Rx", rx), ("Ry", ry), ("Rz", rz)):
            x = a[k % 3]
            ask(op, f(x), 1.1e-15, op, repr(float(x)))
        frame = list(d) + a
        T = hom(ypr(a), d)
        ask("get_transform", T, 2 * t, "frame", lib.vec(frame))
        ask("get_transform", T, 2 * t, "symframe", lib.vec(frame))
        g = r.uniform(-10, 10, 3)
        for op in ("offset", "offsetset"):
            args = (lib.vec(a), lib.vec(d), lib.vec(g))
            ask("FrameOffset rotation", ypr(a), t, op, "R", *args)
            ask("FrameOffset transform", T, t, op, "T", *args)
            ask("FrameOffset translation", d.reshape(3, 1), 0, op, "t", *args)
            ask("FrameOffset gravity", g.reshape(3, 1), 0, op, "g", *args)
            ask("FrameOffset angles", np.reshape(a, (3, 1)), 0, op, "y", *args)
        ask("FrameOffset hat", hat(a), 0, "offset", "hat", *args)
        ask("FrameOffset transform", T, t, "offset", "T", lib.vec(a), lib.vec(d), "0")
    bad = []
    if kind == "lib":
        for na, nt, ng in ((2, 3, 3), (4, 3, 3), (3, 2, 3), (3, 0, 3), (3, 3, 2), (0, 0, 0), (3, 4, 0)):
            bad.append(sc.add("offset", "T", lib.vec(r.normal(size=na)), lib.vec(r.normal(size=nt)), lib.vec(r.normal(size=ng))))
    names = []
    if kind != "class":
        b = Cloud.make(r)
        names.append((sc.add("movename", lib.vec([0, 0, 1]), lib.vec([0, 0, 1]), b.link("some link", [0, 0, 0])), "some link"))
    res = lib.run_script(exe, sc, cwd)
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad("%s:%s" % (kind, cr[0]), cr[1])
    else:
        for i, key, w, tol in want:
            if kind == "class" and res[i][0] == "EXC" and "absent" in res[i][1]:
                continue
            got = res.val(i)
            if got is not None and w.ndim == 2 and w.shape == (1, 10):
                got = got.reshape(1, -1)
            c.num("%s:%s" % (kind, key), got, w, tol, "%s of the %s, '%s'" % (key, {"lib": "library", "urdf": "conversion program", "class": "generated class"}[kind], sc.lines[i][:300]))
        for i in bad:
            c.true("lib:FrameOffset dimensions", res[i][0] == "EXC", "FrameOffset accepts '%s'" % sc.lines[i])
        for i, nme in names:
            c.eq("%s:name" % kind, res[i][1], nme, "name of a moved body")
    return dict(fail=c.fail, obs=c.n, sig=[kind + l for l in sc.lines], worst=c.worst, count={kind + "_helper_calls": len(sc.lines)},
                sample={"calls": sc.lines[:6]} if idx == 0 else None, files={"script": "\n".join(sc.lines)} if c.fail else {})


def model_case(exe, geo, root, seed, idx):
    """frame offsets and the transforms of a model built from the same angles"""
    r = rob.rng_of("c20m", seed, idx)
    cwd = os.path.join(root, "model%d" % idx)
    os.makedirs(cwd)
    rb = rob.make_robot(seed, 20000 + idx, n=1 + idx % 3, sym="full")
    p = os.path.join(cwd, "r.yaml")
    with open(p, "w") as f:
        f.write(rob.to_yaml(rb))
    sc, g = lib.Script(), lib.Script()
    sc.add("new", "r", "rob", p)
    rows = []
    n = rb["n"]
    for k in range(6):
        fr = []
        for w in ("par_world2L0", "par_Ln2EE"):
            v = np.concatenate([r.uniform(-1, 1, 3), angles(r, (k + idx) % 5)])
            fr.append((sc.add("set", "r", w, lib.vec(v)), sc.add("arg", "r", w)))
        sc.add("set", "r", "q", lib.vec(r.uniform(-2, 2, n)))
        rows.append((fr, sc.add("get", "r", "T_0_0"), sc.add("get", "r", "T_0_%d" % n), sc.add("get", "r", "T_0_ee")))
    res = lib.run_script(exe, sc, cwd, "m")
    c = lib.Cmp()
    cr = res.crash()
    if cr:
        c.bad("model:" + cr[0], cr[1])
        return dict(fail=c.fail, obs=1)
    asks = []
    for fr, a, b, e in rows:
        x = []
        for i, j in fr:
            v = res.val(j)
            if v is None or v.size != 6:
                c.bad("model:frame", "no value of a frame")
                return dict(fail=c.fail, obs=1)
            v = v.ravel()
            x.append((g.add("offset", "T", lib.vec(v[3:]), lib.vec(v[:3]), "0"), 1 + np.abs(v[3:]).max()))
        asks.append((x, a, b, e))
    gr = lib.run_script(geo, g, cwd, "g")
    if gr.crash():
        c.bad("lib:" + gr.crash()[0], gr.crash()[1])
        return dict(fail=c.fail, obs=1)
    for (x0, x1), a, b, e in asks:
        c.num("base frame", res.val(a), gr.val(x0[0]), 1e-14 * x0[1], "T_0_0 of the model and FrameOffset::get_transform of the same angles")
        Tn = res.val(b)
        if Tn is not None and gr.val(x1[0]) is not None:
            c.num("end-effector frame", res.val(e), Tn @ gr.val(x1[0]), 1e-13 * x1[1] * (1 + np.abs(Tn).max()), "T_0_ee of the model and FrameOffset::get_transform of the same angles")
        else:
            c.bad("end-effector frame", "no value")
    return dict(fail=c.fail, obs=c.n, sig=sc.lines, worst=c.worst, count={"model_frames": 2 * len(rows)}, files={"r.yaml": open(p).read(), "script": "\n".join(sc.lines)} if c.fail else {})


# ---------------------------------------------------------------- conversion program
def build_program(ck, flavour, extra=()):
    """the conversion program and the driver of its helpers"""
    d = ck.scratch.sub("genyaml_" + flavour)
    jobs, objs = [], []
    srcs = [GY + "/main_YAML.cpp"] + sorted(os.path.join(GY, "src", f) for f in os.listdir(GY + "/src") if f.endswith(".cpp"))
    for s in srcs + [lib.HERE + "/geo_driver.cpp"]:
        o = d + "/" + os.path.basename(s)[:-4] + ".o"
        objs.append(o)
        # own include path: the helper headers of the library have the same names inside
        jobs.append((s, ["g++", "-std=c++17", "-w", "-pipe"] + lib.FLAVOUR[flavour] + list(extra) + ["-I" + GY, "-I" + lib.HERE, "-I/usr/include/eigen3", "-DURDF", "-c", s, "-o", o]))
    bad = lib.compile_all(jobs)
    if bad:
        k = sorted(bad)[0]
        raise lib.Inconclusive("does not compile: %s\n%s" % (k, bad[k][-2500:]))
    out = {}
    bad = lib.compile_all([("conversion program", ["g++"] + lib.FLAVOUR[flavour] + [objs[0]] + objs[1:-1] + ["-o", d + "/main_YAML", "-lyaml-cpp"]),
                           ("geo_driver", ["g++"] + lib.FLAVOUR[flavour] + [objs[-1]] + objs[1:-1] + ["-o", d + "/geo_driver"])])
    if bad:
        k = sorted(bad)[0]
        raise lib.Inconclusive("does not link: %s\n%s" % (k, bad[k][-2500:]))
    return d + "/main_YAML", d + "/geo_driver"


def numtext(r, x):
    return [repr(float(x)), "%.17g" % x, "%.17e" % x][r.integers(3)]


def program_file(r, idx):
    """text of a valid input and its links: (name, cloud)"""
    links, text = [], ""
    n = 8 + [0, 1, 0, 3][idx % 4]
    for i in range(n):
        name = ["link%d" % i, "panda_link%d" % i, "body %d" % i][idx % 3]
        if i == 8:
            name = "hand"
        b = Cloud.make(r)
        tilt = [0., 0., 0.] if idx % 2 == 0 and i % 2 else angles(r, (i + idx) % 3)
        M, c, I = b.about()
        T = rpy(tilt)
        # what the program will read
        vals = dict(zip(("xx", "xy", "xz", "yy", "yz", "zz"), i6(T.T @ I @ T)))
        keys = list(vals)
        r.shuffle(keys)
        parts = ["  origin:\n    xyz: %s\n    rpy: %s\n" % (["  ", " "][i % 2].join(numtext(r, x) for x in c), " ".join(repr(float(x)) for x in tilt)),
                 "  mass: %s\n" % repr(float(M)), "  inertia:\n" + "".join("    %s: %r\n" % (k, float(vals[k])) for k in keys)]
        r.shuffle(parts)
        text += "%s:\n%s\n" % (name, "".join(parts))
        links.append((name, b))
    return text, links


def dh_of(i, b):
    a, al, d = TABLE[i]
    # frame i of the description is frame i of the table before its last two factors; the last row keeps its offset along z
    return b.moved(rx(-al), -rx(-al) @ np.array([a, 0, 0]) - (np.array([0, 0, .107]) if i == 6 else 0))


def read_out(path, keys):
    """[(name, 10 values)] of an output file"""
    out = []
    try:
        for doc in open(path).read().replace("\n---\n", "\n").split("\n\n"):
            y = yaml.load(doc, Loader=yaml.BaseLoader)
            if y:
                for k, v in y.items():
                    out.append((k, np.array([yamlio.num(v[x]) for x in keys])))
                    if set(v) != set(keys):
                        return None
    except (OSError, yaml.YAMLError, KeyError, TypeError, ValueError, AttributeError):
        return None
    return out


DAMAGE = ["missing", "empty", "list", "scalar", "short", "nolinks", "no mass", "no inertia", "no origin", "no xyz", "no rpy", "text mass", "text inertia", "unparsable",
          "short xyz", "short rpy", "text xyz", "text rpy", "empty xyz", "list rpy"]


def damaged(r, kind):
    text, links = program_file(r, 0)
    blocks = [b for b in text.split("\n\n") if b.strip()]
    k = 1 + int(r.integers(7))
    L = blocks[k].split("\n")

    def drop(key, sub=False):
        o, skip = [], False
        for ln in L:
            ind = len(ln) - len(ln.lstrip())
            if skip and ind > base:
                continue
            skip = False
            if ln.strip().startswith(key + ":"):
                skip, base = True, ind
                continue
            o.append(ln)
        return "\n".join(o)
    if kind == "missing":
        return None
    if kind == "empty":
        return ""
    if kind == "list":
        return "- 1\n- 2\n"
    if kind == "scalar":
        return "42\n"
    if kind == "short":
        return "\n\n".join(blocks[:int(r.integers(1, 8))]) + "\n"
    if kind == "nolinks":
        return "\n".join(b.split("\n")[0] for b in blocks) + "\n"
    if kind in ("no mass", "no inertia", "no origin", "no xyz", "no rpy"):
        blocks[k] = drop(kind[3:])
    elif kind == "text mass":
        blocks[k] = "\n".join("  mass: heavy" if ln.strip().startswith("mass") else ln for ln in L)
    elif kind == "text inertia":
        blocks[k] = "\n".join("    yz: [1, 2]" if ln.strip().startswith("yz") else ln for ln in L)
    elif kind.split()[1:] in (["xyz"], ["rpy"]):
        new = {"short": r.choice(["0.1", "0.1 -2e-3"]), "text": r.choice(["a b c", "0.1 x 3", "0.1 0.2 up"]), "empty": "''", "list": "[0.1, 0.2, 0.3]"}[kind.split()[0]]
        blocks[k] = "\n".join(ln.split(":")[0] + ": " + new if ln.strip().startswith(kind.split()[1] + ":") else ln for ln in L)
    elif kind == "unparsable":
        blocks[k] = "{ [ " + blocks[k]
    return "\n\n".join(blocks) + "\n"


def program_case(exe, root, seed, idx, tag):
    r = rob.rng_of("c20p", seed, idx, tag)
    top = os.path.join(root, "%s%d" % (tag, idx))
    cwd, dest = top + "/genYAML", top + "/generatedFiles"
    os.makedirs(cwd + "/yaml")
    os.makedirs(dest)
    bad = DAMAGE[(idx // 3) % len(DAMAGE)] if idx % 3 == 2 else None
    if idx == 0:
        text = open(GY + "/yaml/inertial.yaml").read()
        links = None
    elif bad:
        text, links = damaged(r, bad), None
    else:
        text, links = program_file(r, idx)
    path = cwd + "/yaml/inertial.yaml"
    if text is not None:
        with open(path, "w") as f:
            f.write(text)
    old = None
    if idx % 2:                         # results of an earlier run
        old = {f: "old %s\n" % f for f in ("inertial_DH.yaml", "inertial_DH_DYN.yaml", "inertial_DH_REG.yaml")}
        for f, t in old.items():
            with open(os.path.join(dest, f), "w") as h:
                h.write(t)
    rc, o, e, hang = lib.run_prog([exe], cwd, 100)
    c = lib.Cmp()
    rep = lib.sanitizer_report(e)
    have = sorted(os.listdir(dest))
    what = "damaged file (%s)" % bad if bad else "valid file"
    if hang:
        c.bad("program:hang", what)
    elif rep:
        c.bad("program:" + rep[0], what + ": " + rep[1])
    elif rc is not None and rc < 0 or rc > 1:
        c.bad("program:crash", "%s: exit %s: %s" % (what, rc, e[-500:]))
    elif bad:
        c.true("program:refuses", rc != 0, "the conversion program reports success for a %s" % what)
        now = {f: open(os.path.join(dest, f)).read() for f in have}
        c.true("program:refuses", now == (old or {}), "the conversion program wrote %s for a %s" % (have, what))
    else:
        c.eq("program:exit", rc, 0, "exit code for a valid file: %s" % e[-300:])
        if links is None:
            y = yaml.load(text, Loader=yaml.BaseLoader)
            ten = []
            for nme, v in list(y.items())[1:8]:
                R = rpy([float(x) for x in v["origin"]["rpy"].split()])
                I = R @ ref.sym6([float(v["inertia"][x]) for x in ("xx", "xy", "xz", "yy", "yz", "zz")]) @ R.T
                ten.append((nme, float(v["mass"]), np.array([float(x) for x in v["origin"]["xyz"].split()]), I))
            want = []
            for i, (nme, m, x, I) in enumerate(ten):
                a, al, d = TABLE[i]
                Q = rx(-al)
                want.append((nme, np.array([m, *(Q @ (x - [a, 0, 0]) - ([0, 0, .107] if i == 6 else [0, 0, 0])), *i6(Q @ I @ Q.T)])))
            scale = [np.array([m, 1, 1, 1] + [m + np.abs(I).max()] * 6) for _, m, _, I in ten]
        else:
            want = [(nme, dh_of(i, b).ten()) for i, (nme, b) in enumerate(links[1:8])]
            scale = [dh_of(i, b).scale() + b.scale() for i, (nme, b) in enumerate(links[1:8])]
        for f, keys, conv in (("inertial_DH.yaml", yamlio.DYN, None), ("inertial_DH_DYN.yaml", yamlio.DYN, None), ("inertial_DH_REG.yaml", yamlio.REG, ref.dyn_to_reg)):
            got = read_out(os.path.join(dest, f), keys)
            if not c.true("program:form", got is not None, "%s does not have the expected form" % f):
                continue
            if not c.eq("program:links", [x[0] for x in got], [x[0] for x in want], "links of " + f):
                continue
            for (nme, v), (_, w), s in zip(got, want, scale):
                if conv:
                    w = conv(w)
                    s = s * np.array([1, abs(w[0]), abs(w[0]), abs(w[0])] + [2] * 6)
                c.num("program:" + f, v, w, 1e-12 * s, "%s of %s" % (f, nme))
        for p in (2, 5, 10, 20):
            f = "inertial_DH_REG_p%d.yaml" % p
            got = read_out(os.path.join(dest, f), yamlio.REG)
            if not c.true("program:form", got is not None, "%s does not have the expected form" % f):
                continue
            if not c.eq("program:links", [x[0] for x in got], [x[0] for x in want], "links of " + f):
                continue
            dev, num = 0, 0
            for (nme, v), (_, w), s in zip(got, want, scale):
                g = ref.reg_to_dyn(v)
                # roundoff of taking the centre of mass out again is far below the perturbation
                lim = 9 * p / 100 * np.abs(w) + 1e-9 * s + 1e-9 * np.array([0, 0, 0, 0] + [abs(v[0]) * (g[1:4] @ g[1:4])] * 6)
                c.num("program:perturbed", g, w, lim, "%s of %s, nine deviations of %d per cent" % (f, nme, p))
                dev += np.abs(g[:4] / w[:4] - 1).sum()
                num += 4
            # the mean of 28 absolute deviations of a normal distribution
            c.true("program:perturbed", .2 < dev / num / (p / 100) < 2.2 or not num, "%s: mean deviation %.3g per cent" % (f, 100 * dev / num))
    return dict(fail=c.fail, obs=max(c.n, 1), sig="program" + (text or str(bad)) + str(old is not None), worst=c.worst, count={"conversions": 1 - bool(bad), "refused_files": int(bool(bad))},
                sample={"file": (text or "")[:400], "wrote": have} if idx == 1 else None, files={"inertial.yaml": text or "", "stderr": e} if c.fail else {})


def program_cases(ck, flavour, count):
    exe, geo = build_program(ck, flavour, ["-D_GLIBCXX_ASSERTIONS"])
    root = ck.scratch.sub("program_" + flavour)
    return lib.run_cases(program_case, [(exe, root, ck.seed, i, flavour) for i in range(count)])


def run(ck):
    quick = ck.tier == "quick"
    E = {}
    def build(k):
        E[k] = lib.Engine(ck.scratch, "plain", programs=("engine_driver.cpp", "geo_driver.cpp", lib.THUNDER + "/thunder_main.cpp")) if k == "eng" else build_program(ck, "plain", ["-D_GLIBCXX_ASSERTIONS"])
    lib.par(build, ["eng", "prog"])
    eng, (prog, geo_urdf) = E["eng"], E["prog"]
    geo = eng.exe["geo_driver"]
    root = ck.scratch.sub("cases")
    n, N = (24, 40) if quick else (400, 60)
    ck.take(lib.run_cases(helper_case, [(geo, "lib", root, ck.seed, i, N) for i in range(n)]))
    ck.take(lib.run_cases(helper_case, [(geo_urdf, "urdf", root, ck.seed, i, N) for i in range(n)]))
    ck.take(lib.run_cases(model_case, [(eng.exe["engine_driver"], geo, root, ck.seed, i) for i in range(24 if quick else 300)]))
    ck.take(lib.run_cases(program_case, [(prog, root, ck.seed, i, "p") for i in range(75 if quick else 900)]))
    # the helpers of a generated class
    spec = ("geo", rob.make_robot(ck.seed, 20999, n=1))
    fl = gen.Fleet(ck, eng, [spec], flags=["-f"], build=False)
    fl.report_problems()
    d = fl.robots["geo"]
    if not d["problem"]:
        o = ck.scratch.path("geo_class")
        jobs = [("%s%d" % (o, i), lib.cxx(s, "%s%d.o" % (o, i), "plain", ["-I" + d["folder"], "-DCLS=thunder_geo", '-DHDR="thunder_geo.h"']))
                for i, s in enumerate([lib.HERE + "/geo_driver.cpp", d["folder"] + "/thunder_geo.cpp", d["folder"] + "/geo_gen.cpp"])]
        bad = lib.compile_all(jobs)
        if bad:
            raise lib.Inconclusive("driver of the class does not compile: %s" % list(bad.values())[0][-2000:])
        bad = lib.compile_all([("link", ["g++"] + ["%s%d.o" % (o, i) for i in range(3)] + ["-o", o, "-lyaml-cpp"])])
        if bad:
            raise lib.Inconclusive("driver of the class does not link: %s" % bad["link"][-2000:])
        ck.take(lib.run_cases(helper_case, [(o, "class", root, ck.seed, i, N) for i in range(8 if quick else 60)]))
