"""Robot and state generator. Quotas are deterministic functions of the case index, values come from the seed."""
import copy
import math
import numpy as np

HALF = math.pi / 2
SPECIAL = [0.0, HALF, -HALF, math.pi, -math.pi, HALF + 1e-9, 1e-8, -1e-3, 0.3, 2 * math.pi, math.pi / 4]


def rng_of(*key):
    return np.random.default_rng([abs(hash_int(k)) for k in key])


def hash_int(k):
    if isinstance(k, (int, np.integer)):
        return int(k)
    h = 0
    for ch in str(k):
        h = (h * 131 + ord(ch)) % (2 ** 31)
    return h


def pick_angle(r, style):
    if style == 0:
        return float(SPECIAL[r.integers(len(SPECIAL))])
    if style == 1:
        return float(r.uniform(-3.2, 3.2))
    return float(SPECIAL[r.integers(len(SPECIAL))]) if r.random() < .5 else float(r.uniform(-6, 6))


def pick_len(r, style):
    if style == 0:
        return float([0.0, 0.0, 1.0, -0.5, 1e-6][r.integers(5)])
    return float(r.uniform(-1.2, 1.2)) if r.random() < .8 else float([0., 1e-9, 3.0][r.integers(3)])


def inertia(r, style):
    """10 parameters of one link: mass, com, inertia about the com"""
    m = float(r.uniform(.2, 5))
    c = r.uniform(-.4, .4, 3)
    if style == 1:      # point-like / thin
        c = np.array([0., 0., 0.]) if r.random() < .5 else c
    if style == 2:      # extreme scales
        m = float(10 ** r.uniform(-4, 3))
        c = c * 10 ** r.uniform(-3, 1)
    Q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    a = r.uniform(.02, .6, 3)           # second moments along principal axes: always physical
    D = np.diag([a[1] + a[2], a[0] + a[2], a[0] + a[1]]) * m
    I = Q @ D @ Q.T
    if style == 3:      # not physical, still a legal file
        I = r.uniform(-1, 1, (3, 3))
        I = I + I.T
        if r.random() < .3:
            m = -m
    return [m, *map(float, c), float(I[0, 0]), float(I[0, 1]), float(I[0, 2]), float(I[1, 1]), float(I[1, 2]), float(I[2, 2])]


def mask(r, n, style):
    """0 none/absent, 1 all, 2 random, 3 one, 4 all but one"""
    if style == 0:
        return [0] * n
    if style == 1 or n == 0:
        return [1] * n
    if style == 2:
        m = [int(x) for x in r.integers(0, 2, n)]
        return m
    k = int(r.integers(n))
    if style == 3:
        return [int(i == k) for i in range(n)]
    return [int(i != k) for i in range(n)]


TYPE_PATTERNS = ["R", "P", "RP", "PR", "RRP", "PRP", "R", "PPR", "RPR", "PRR"]


def quota(name, seed, idx, m):
    """which of m options: each one once in every m consecutive cases, independently of every other quota"""
    return int(rng_of("quota", name, seed, idx // m).permutation(m)[idx % m])


def picker(seed, idx):
    """pick(name, options): the quota of case idx"""
    return lambda name, options: options[quota(name, seed, idx, len(options))]


def make_robot(seed, idx, n=None, nmax=4, elastic=None, dl=None, sym=None, inert=None, grav=None, kin=None,
               base=None, types=None, orders=None, zeros=False, big=0):
    """sym: dict group->mask style, or None (drawn), or 'full' / 'none'"""
    r = rng_of("robot", seed, idx)

    def q(name, m):
        return quota(name, seed, idx, m)
    if n is None:
        n = 1 + q("n", nmax)
    if big > nmax and idx % 11 == 7:        # a long chain now and then
        n = nmax + 1 + (idx // 11) % (big - nmax)
    longer = big > nmax and idx % 33 == 18 and types is None
    if longer:                              # more than nine links, mostly sliding ones: these are cheap
        n = 10 + (idx // 33) % 5
    if elastic is None:
        elastic = [0, 1, 2, 0, 3][q("elastic", 5)]            # 0 rigid, 1 all SEA, 2 mixed, 3 ELASTIC flag off but SEA names
    if types is None:
        pat = TYPE_PATTERNS[q("types", len(TYPE_PATTERNS))]
        off = int(r.integers(len(pat)))
        kinds = [pat[(i + off) % len(pat)] for i in range(n)]
        if q("any types", 4) == 3:
            kinds = [("R", "P")[int(x)] for x in r.integers(0, 2, n)]
        if longer:
            kinds = ["P"] * n
            for k in {n - 1 - int(r.integers(3)), int(r.integers(n)), int(r.integers(n))}:
                kinds[k] = "R"
        sea = [0] * n
        if elastic in (1, 3):
            sea = [1] * n
        elif elastic == 2:
            sea = [int(x) for x in r.integers(0, 2, n)]
            sea[-1] = 1
            if n > 1 and q("first", 2) == 0:
                sea[0] = 0
        types = [k + ("_SEA" if s else "") for k, s in zip(kinds, sea)]
    flag = elastic in (1, 2)
    if elastic == 3 and q("flag", 2) == 0:
        flag = True
    st = kin if kin is not None else q("kin", 3)
    DH = []
    for i in range(n):
        DH += [pick_len(r, st), pick_angle(r, st), pick_len(r, st), pick_angle(r, st)]
    b = base if base is not None else [1, 0, 1, 2][q("base", 4)]
    def fr(s):
        if s == 0:
            return [0.0] * 6
        if s == 1:
            return [float(x) for x in r.uniform(-1, 1, 3)] + [float(x) for x in r.uniform(-3, 3, 3)]
        return [pick_len(r, 0) for _ in range(3)] + [pick_angle(r, 0) for _ in range(3)]
    gstyle = grav if grav is not None else [0, 1, 1, 2][q("gravity", 4)]   # 0 usual, 1 any, 2 absent
    g = [0., 0., -9.81] if gstyle == 0 else ([float(x) for x in r.uniform(-10, 10, 3)] if gstyle == 1 else None)
    ist = inert if inert is not None else [0, 0, 2, 0, 1, 3][q("inertia", 6)]
    dyn = [inertia(r, ist) for _ in range(n)]
    dlo = dl if dl is not None else [0, 1, 2, 5, 3][q("Dl", 5)]
    Dl = [[float(x) for x in r.uniform(-1, 2, dlo)] for _ in range(n)]
    nej = sum(t.endswith("SEA") for t in types)
    if orders is None:
        orders = [[1, 0, 1], [2, 2, 3], [0, 1, 0], [3, 5, 2], [1, 3, 4], [2, 0, 0]][q("orders", 6)]
    if big and idx % 13 == 5:               # two-digit orders
        dlo = 6 + (idx // 13) % 6
        Dl = [[float(x) for x in r.uniform(-1, 2, dlo)] for _ in range(n)]
    if big and (idx % 13 == 6 or idx % 65 == 5):
        orders = [[10, 3, 11], [2, 12, 1], [11, 10, 10]][(idx // 13) % 3]
    Ko, Do, Dmo = orders if flag else (0, 0, 0)
    rb = dict(n=n, types=types, DH=DH, base=fr(b), ee=fr([1, 2, 0, 1][q("ee", 4)]), gravity=g, dyn=dyn, Dl_order=dlo, Dl=Dl,
              ELASTIC=flag, nej=nej, K_order=Ko, D_order=Do, Dm_order=Dmo,
              K=[[float(x) for x in r.uniform(-2, 9, Ko)] for _ in range(nej)],
              D=[[float(x) for x in r.uniform(-1, 3, Do)] for _ in range(nej)],
              Dm=[[float(x) for x in r.uniform(-1, 3, Dmo)] for _ in range(nej)],
              Mm=[float(x) for x in r.uniform(.01, 3, nej)])
    sizes = dict(DH=4 * n, base=6, ee=6, gravity=3, dyn=10 * n, Dl=n * dlo, K=nej * Ko, D=nej * Do, Dm=nej * Dmo, Mm=nej if flag else 0)
    sy = {}
    for gi, (k, sz) in enumerate(sizes.items()):
        if sym == "full":
            s = 1
        elif sym == "none":
            s = 0
        elif isinstance(sym, dict) and k in sym:
            s = sym[k]
        elif isinstance(sym, list):
            s = sym[gi % len(sym)]
        else:
            s = int(r.integers(0, 5))
        sy[k] = mask(r, sz, s)
    if g is None:
        sy["gravity"] = [0, 0, 0]
    rb["symb"] = sy
    rb["style"] = int(r.integers(0, 4))
    if zeros and q("zeros", 3) != 2:
        degenerate(rb, rng_of("zeros", seed, idx))
    rb["yaml"] = int(rng_of("yaml", seed, idx).integers(0, 64))
    return rb


def planar(seed, idx, n, **kw):
    """a long chain whose generated code still compiles quickly"""
    sy = dict(DH=3, base=3, ee=0, gravity=1, dyn=3, Dl=2, K=2, D=1, Dm=2, Mm=2)
    rb = make_robot(seed, idx, n=n, sym=sy, inert=0, base=0, **kw)
    rb["DH"] = [x for i in range(n) for x in (round(.2 + .05 * i, 3), 0.0, 0.0 if i % 3 else .125, 0.0)]
    rb["ee"] = [.25, 0.0, 0.0, 0.0, 0.0, 0.0]
    for i in range(n):
        rb["dyn"][i] = [round(1 + .1 * i, 3), .125, 0.0, 0.0, .0625, 0.0, 0.0, .0625, 0.0, .125]
    return rb


def degenerate(rb, r):
    """exact zeros and single non-zero entries where a program may be tempted to skip work"""
    n = rb["n"]

    def some(p=.35):
        return [i for i in range(n) if r.random() < p]
    for i in some():
        k = int(r.integers(6))
        d = rb["dyn"][i]
        if k == 0:
            d[0] = 0.0                      # no mass, still a rotor inertia
        elif k == 1:
            d[4:] = [0.0] * 6               # point mass
        elif k == 2:
            d[1:4] = [0.0] * 3
        elif k == 3:
            d[:] = [0.0] * 10
        elif k == 4:
            a = int(r.integers(3))
            d[1:4] = [d[1 + j] if j == a else 0.0 for j in range(3)]
        else:
            d[5], d[6], d[8] = [(0.0, x)[int(r.integers(2))] for x in (d[5], d[6], d[8])]
    for i in some(.25):
        if r.random() < .5:
            rb["DH"][4 * i:4 * i + 4] = [0.0] * 4
        else:
            j = int(r.integers(4))
            rb["DH"][4 * i:4 * i + 4] = [x if k == j else 0.0 for k, x in enumerate(rb["DH"][4 * i:4 * i + 4])]
    # equal rows, links and frames
    for i in range(1, n):
        if r.random() < .2:
            rb["DH"][4 * i:4 * i + 4] = rb["DH"][4 * i - 4:4 * i]
        if r.random() < .15:
            rb["dyn"][i] = list(rb["dyn"][i - 1])
    if r.random() < .15:
        rb["ee"] = list(rb["base"])
    for f in ("base", "ee"):
        if r.random() < .4:
            keep = [int(r.integers(6))] if r.random() < .5 else [3 + int(r.integers(3)), 3 + int(r.integers(3))]
            rb[f] = [x if k in keep else 0.0 for k, x in enumerate(rb[f])]
    if rb["gravity"] is not None and r.random() < .5:
        a = int(r.integers(4))
        rb["gravity"] = [x if k == a else 0.0 for k, x in enumerate(rb["gravity"])]
        if a < 3 and rb["gravity"][a] == 0.0:
            rb["gravity"][a] = 9.81
    for g in ("Dl", "K", "D", "Dm"):
        for row in rb[g]:
            for k in range(len(row)):
                if r.random() < .2:
                    row[k] = 0.0
    for k in range(len(rb["Mm"])):
        if r.random() < .2:
            rb["Mm"][k] = 0.0


def decoy(rb, r):
    """another robot that looks alike: same size, and some of the structure, other values, kinds or masks"""
    d = copy.deepcopy(rb)
    k = int(r.integers(4))

    def other(v):
        return [other(x) if isinstance(x, (list, tuple)) else (float(x) * float(r.uniform(.3, 1.7)) + (0 if x else float(r.uniform(-1, 1)) * (k == 1))) for x in v]
    for g in ("DH", "base", "ee", "gravity", "dyn", "Dl", "K", "D", "Dm", "Mm"):
        if d[g] is not None:
            d[g] = other(d[g])
    if k == 2:
        d["types"] = [("P" if t[0] == "R" else "R") + t[1:] for t in d["types"]]
    if k == 3:
        d["symb"] = {g: [1 - x for x in v] for g, v in d["symb"].items()}
        if d["gravity"] is None:
            d["symb"]["gravity"] = [0, 0, 0]
    return d


PARAMS = [("par_DHtable", "DH"), ("par_world2L0", "base"), ("par_Ln2EE", "ee"), ("par_gravity", "gravity"), ("par_DYN", "dyn"),
          ("par_Dl", "Dl"), ("par_K", "K"), ("par_D", "D"), ("par_Dm", "Dm"), ("par_Mm", "Mm")]


def full_values(rb, group):
    v = rb[group]
    if v is None:
        v = [0., 0., 0.]
    out = []
    for x in v:
        out += list(x) if isinstance(x, (list, tuple)) else [x]
    return [float(x) for x in out]


def with_values(rb, group, vals):
    """copy of rb with the flat values of one group replaced"""
    r = dict(rb)
    vals = [float(x) for x in vals]
    if group in ("DH", "base", "ee", "gravity", "Mm"):
        r[group] = vals
    else:
        w = dict(dyn=10, Dl=rb["Dl_order"], K=rb["K_order"], D=rb["D_order"], Dm=rb["Dm_order"])[group]
        r[group] = [vals[i * w:(i + 1) * w] for i in range(len(vals) // w)] if w else [[] for _ in rb[group]]
    return r


def fmt(x):
    return repr(float(x))


def seq(v):
    return "[" + ", ".join(fmt(x) for x in v) + "]"


def iseq(v):
    return "[" + ", ".join(str(int(x)) for x in v) + "]"


NAMES = [["base link", "arm", "Zeta", "alpha", "link_1", "0", "tool", "Link2", "a-b", "x.y"], None]


def part_name(rb, kind, i, n):
    """the sections of links and joints count by their order, whatever their names"""
    k = rb.get("yaml", 0) & 3
    if k == 1:
        return "%s%d" % (kind, n - i)
    if k == 2:
        return NAMES[0][i % 10] + (kind if i >= 10 else "")
    if k == 3 and kind == "joint":
        return "joint%d" % (i * 2)
    return "%s%d" % (kind, i + 1)


def to_yaml(rb, extra="", surplus=0, comments=False):
    """surplus: add trailing coefficients, extra links and unknown keys"""
    if rb.get("raw"):           # a description that somebody else wrote
        return rb["raw"]
    o = to_lines(rb, surplus, comments)
    bits = rb.get("yaml", 0)
    if bits & 4:            # another order of the sections
        parts, cur = [], None
        for l in o:
            if cur is None or not (l.startswith(" ") or l.startswith("#")):
                cur = []
                parts.append(cur)
            cur.append(l)
        head = [p for p in parts if "&" in p[0] or p[0].startswith("#")]
        rest = [p for p in parts if p not in head]
        rest = rest[::-1] if bits & 8 else rest[len(rest) // 2:] + rest[:len(rest) // 2]
        o = [l for p in head + rest for l in p]
    if extra or rb.get("extra"):
        o.append(extra or rb["extra"])
    return "\n".join(o) + "\n"


def to_lines(rb, surplus, comments):
    bits = rb.get("yaml", 0)

    def fmt(x):
        x = float(x)
        if bits & 16 and x == int(x) and abs(x) < 1e6 and not (x == 0 and str(x).startswith("-")):
            return str(int(x))
        if bits & 16 and comments and abs(x) == 1.5707963267948966:
            return "*PI_2" if x > 0 else "*PI_2_neg"
        if bits & 32 and abs(x) < 1 and repr(x).startswith("0."):
            return repr(x)[1:]
        return repr(x)

    def seq(v):
        return "[" + ", ".join(fmt(x) for x in v) + "]"
    n = rb["n"]
    sy = rb["symb"]
    st = rb.get("style", 0)
    o = ["version: 0.3"]
    if comments:
        o += ["# a comment", "PI_2: &PI_2 1.5707963267948966", "PI_2_neg: &PI_2_neg -1.5707963267948966"]
    if rb["ELASTIC"]:
        o.append("ELASTIC_MODEL: true")
    elif st % 2:
        o.append("ELASTIC_MODEL: false")
    o.append("num_joints: %d" % n)
    if rb["Dl_order"] or st % 2:
        o.append("Dl_order: %d" % rb["Dl_order"])
    o.append("type_joints: [" + ", ".join(("%s" if bits & 32 else "'%s'") % t for t in rb["types"]) + "]")
    def omit(k, part=None):
        """sections without symbolic entries need no flags, also when other links and joints have them"""
        if part is not None and any(sy[k]):
            return bool(bits & 8)
        return not any(sy[k]) and (st // 2) % 2
    o.append("kinematics:")
    if not omit("DH"):
        o.append("  symb: " + iseq(sy["DH"]))
    o.append("  DH: [" + ",\n       ".join(", ".join(fmt(x) for x in rb["DH"][4 * i:4 * i + 4]) for i in range(n)) + "]")
    if rb["gravity"] is not None:
        o.append("gravity:")
        if not omit("gravity"):
            o.append("  symb: " + iseq(sy["gravity"]))
        o.append("  value: " + seq(rb["gravity"]))
    for key, g in (("Base_to_L0", "base"), ("Ln_to_EE", "ee")):
        o.append(key + ":")
        if not omit(g):
            o.append("  symb: " + iseq(sy[g]))
        o.append("  tr: " + seq(rb[g][:3]))
        o.append("  ypr: " + seq(rb[g][3:]))
    o.append("dynamics:")
    names = ["mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]
    links = list(range(n))
    for i in links + ([n] if surplus else []):
        src = min(i, n - 1)
        o.append("  %s:" % part_name(rb, "link", i, n))
        o.append("    inertial:")
        s = sy["dyn"][10 * src:10 * src + 10]
        if any(s) or not omit("dyn", s):
            o.append("      symb: " + iseq(s))
        for k, nm in enumerate(names):
            o.append("      %s: %s" % (nm, fmt(rb["dyn"][src][k])))
        if rb["Dl_order"]:
            if not (rb.get("no_friction") and i in rb["no_friction"]):
                o.append("    friction:")
                w = rb["Dl_order"]
                s = sy["Dl"][w * src:w * src + w]
                if any(s) or not omit("Dl", s):
                    o.append("      symb: " + iseq(s + ([1] if surplus > 1 else [])))
                o.append("      Dl: " + seq(list(rb["Dl"][src]) + ([7.25] if surplus else [])))
    if rb["ELASTIC"] or rb.get("elastic_section"):
        o.append("elastic:")
        o.append("  K_order: %d" % rb["K_order"])
        o.append("  D_order: %d" % rb["D_order"])
        o.append("  Dm_order: %d" % rb["Dm_order"])
        if rb["nej"]:
            o.append("  joints:")
        for i in list(range(rb["nej"])) + ([rb["nej"]] if surplus and rb["nej"] else []):
            src = min(i, rb["nej"] - 1)
            o.append("    %s:" % part_name(rb, "joint", i, rb["nej"]))
            for nm, w in (("K", rb["K_order"]), ("D", rb["D_order"]), ("Dm", rb["Dm_order"])):
                if w or st % 2:
                    o.append("      %s: %s" % (nm, seq(list(rb[nm][src]) + ([3.5] if surplus else []))))
                s = sy[nm][w * src:w * src + w]
                if any(s) or not omit(nm, s):
                    o.append("      %s_symb: %s" % (nm, iseq(s)))
            o.append("      Mm: " + fmt(rb["Mm"][src]))
            s = sy["Mm"][src:src + 1] or [0]
            if s[0] or not omit("Mm", s):
                o.append("      Mm_symb: %d" % s[0])
    if surplus:
        o += ["some_unknown_key: 17", "another:", "  nested: [a, b, c]"]
    if comments:
        o.append("# trailing comment")
    return o


def signature(rb):
    """what makes a robot structurally different from another one"""
    sy = rb["symb"]
    return (tuple(rb["types"]), rb["ELASTIC"], rb["K_order"], rb["D_order"], rb["Dm_order"], rb["Dl_order"], rb["gravity"] is not None,
            tuple(round(x, 3) for x in rb["DH"][:4]), tuple(sum(v) for v in sy.values()))


def states(rb, seed, idx, S):
    """S states: dict of arrays (S, n) / (S, nej) / (S, 6)"""
    r = rng_of("state", seed, idx)
    n, e = rb["n"], rb["nej"]
    out = {}
    P = np.array([t.startswith("P") for t in rb["types"]])
    def draw(s, k, kind):
        if kind == "q":
            v = r.uniform(-3.2, 3.2, k)
            if s == 0:
                v = np.zeros(k)
            elif s == 1:
                v = np.array([SPECIAL[i] for i in r.integers(0, len(SPECIAL), k)])
            elif s == 2:
                v = r.uniform(-40, 40, k)
            return v
        v = r.normal(0, 2, k)
        if s == 0:
            v = np.zeros(k)
        elif s == 1:
            v = -np.abs(v)
        elif s == 3:
            v = v * 25
        elif s == 4:
            v[r.integers(0, max(k, 1)):] = 0
        return v
    for nm, k, kind in (("q", n, "q"), ("dq", n, "v"), ("ddq", n, "v"), ("d3q", n, "v"), ("dqr", n, "v"), ("ddqr", n, "v"),
                        ("x", e, "q"), ("dx", e, "v"), ("ddx", e, "v"), ("w", 6, "v")):
        rows = []
        for s in range(S):
            # different variables get their special cases in different states
            sh = {"q": 0, "dq": 0, "ddq": 1, "d3q": 2, "dqr": 3, "ddqr": 4, "x": 1, "dx": 2, "ddx": 3, "w": 4}[nm]
            rows.append(draw((s + sh) % max(S, 6), k, kind))
        out[nm] = np.array(rows).reshape(S, k)
    q = out["q"]
    if P.any():
        q[:, P] = np.clip(q[:, P], -5, 5)
    # equal and single entries: perfect tracking, springs at rest, one moving joint
    r = rng_of("relations", seed, idx)
    E = [i for i, t in enumerate(rb["types"]) if t.endswith("SEA")]
    for s in range(3, S):
        k = int(r.integers(0, 6))
        if k == 0:
            out["dqr"][s], out["ddqr"][s] = out["dq"][s], out["ddq"][s]
        elif k == 1 and e:
            out["x"][s] = q[s][E]
        elif k == 2 and e:
            out["x"][s], out["dx"][s] = q[s][E], out["dq"][s][E]
        elif k == 3:
            q[s] = q[s][0]
        elif k == 4:
            j = int(r.integers(n))
            out["dq"][s] = np.where(np.arange(n) == j, out["dq"][s], 0)
    # nearly at rest, small deflections, one entry alone, opposite references
    r = rng_of("sizes", seed, idx)
    for s in range(2, S):
        k = int(r.integers(0, 12))
        if k == 0:
            f = 10 ** r.uniform(-9, -2)
            for nm in ("dq", "dqr", "dx") + (("ddq", "ddqr", "ddx", "d3q") if r.random() < .5 else ()):
                out[nm][s] = out[nm][s] * f
        elif k == 1 and e:
            out["x"][s] = q[s][E] + r.normal(0, 1, e) * 10 ** r.uniform(-7, -2)
            out["dx"][s] = out["dq"][s][E] + r.normal(0, 1, e) * 10 ** r.uniform(-7, -2)
        elif k == 2:
            nm = ("dq", "ddq", "d3q", "dqr", "ddqr", "w", "dx", "ddx")[int(r.integers(8))]
            if out[nm].shape[1]:
                j = int(r.integers(out[nm].shape[1]))
                out[nm][s] = np.where(np.arange(out[nm].shape[1]) == j, out[nm][s] + 1, 0)
        elif k == 3:
            out["dqr"][s], out["ddqr"][s] = -out["dq"][s], -out["ddq"][s]
        elif k == 4:
            for nm in ("ddq", "d3q", "dqr", "ddqr"):
                if r.random() < .5:
                    out[nm][s] = 0
        elif k == 5:
            j = int(r.integers(n))
            out["dq"][s][j] *= 1e-6
        elif k == 6:      # almost perfect tracking
            f = 10 ** r.uniform(-9, -4)
            out["dqr"][s] = out["dq"][s] * (1 + f * r.normal(size=n))
            out["ddqr"][s] = out["ddq"][s] * (1 + f * r.normal(size=n))
    return out
