"""Independent numeric reference for serial robots.

Positions are computed as truncated power series ("jets") c[a,e,d] of  t^a * eps^e * del^d  with eps^2 = del^2 = 0.
eps runs over the joint directions (axis J), del over joints or parameters (axis K), t along a trajectory.
Everything else (velocities, Jacobians, energies, time and parameter derivatives) is read off the coefficients.
No formula of the code under test is used.
"""
import threading

import numpy as np

ORDER = threading.local()       # number of powers of t kept


class Jet:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    @staticmethod
    def const(x):
        return Jet({(0, 0, 0): np.asarray(x, float)})

    def __add__(self, o):
        if not isinstance(o, Jet):
            o = Jet.const(o)
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r[k] + v if k in r else v
        return Jet(r)

    def __neg__(self):
        return Jet({k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o if isinstance(o, Jet) else Jet.const(-np.asarray(o, float)))

    def _mul(self, o, op):
        r = {}
        nt = ORDER.nt
        for (a, e, d), v in self.c.items():
            for (a2, e2, d2), w in o.c.items():
                if a + a2 >= nt or e + e2 > 1 or d + d2 > 1:
                    continue
                k = (a + a2, e + e2, d + d2)
                x = op(v, w)
                r[k] = r[k] + x if k in r else x
        return Jet(r)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            o = Jet.const(o)
        return self._mul(o, np.multiply)

    def __matmul__(self, o):
        if not isinstance(o, Jet):
            o = Jet.const(o)
        return self._mul(o, np.matmul)

    def map(self, f):
        return Jet({k: f(v) for k, v in self.c.items()})

    def pick(self, e=None, d=None):
        """coefficients with given eps / del exponent, which is removed"""
        r = {}
        for (a, ee, dd), v in self.c.items():
            if (e is None or ee == e) and (d is None or dd == d):
                r[(a, 0 if e is not None else ee, 0 if d is not None else dd)] = v
        return Jet(r)

    def get(self, a=0, e=0, d=0, shape=None):
        v = self.c.get((a, e, d))
        if v is None:
            v = np.zeros(shape if shape is not None else ())
        if shape is not None:
            v = np.broadcast_to(v, shape)
        return v


def sincos(x):
    x0 = x.c.get((0, 0, 0), np.zeros(()))
    nil = Jet({k: v for k, v in x.c.items() if k != (0, 0, 0)})
    s0, c0 = np.sin(x0), np.cos(x0)
    one = Jet.const(1.0)
    n2 = nil * nil
    n3 = n2 * nil
    n4 = n2 * n2
    sn = nil - n3 * (1 / 6.)
    cn = one - n2 * 0.5 + n4 * (1 / 24.)
    s0, c0 = Jet.const(s0), Jet.const(c0)
    return s0 * cn + c0 * sn, c0 * cn - s0 * sn


def mat(rows):
    """matrix jet from rows of scalar jets / numbers"""
    n, m = len(rows), len(rows[0])
    ent = [[x if isinstance(x, Jet) else Jet.const(x) for x in r] for r in rows]
    keys = set()
    for r in ent:
        for x in r:
            keys |= set(x.c)
    out = {}
    for k in keys:
        arrs = [x.c.get(k) for r in ent for x in r]
        shp = np.broadcast_shapes(*[a.shape for a in arrs if a is not None])
        M = np.zeros(shp + (n, m))
        for i in range(n):
            for j in range(m):
                a = ent[i][j].c.get(k)
                if a is not None:
                    M[..., i, j] = a
        out[k] = M
    return Jet(out)


def Tm(j):
    return j.map(lambda v: np.swapaxes(v, -1, -2))


def rx(x):
    s, c = sincos(x)
    return mat([[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1]])


def ry(x):
    s, c = sincos(x)
    return mat([[c, 0, s, 0], [0, 1, 0, 0], [-s, 0, c, 0], [0, 0, 0, 1]])


def rz(x):
    s, c = sincos(x)
    return mat([[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])


def tr(x, y, z):
    return mat([[1, 0, 0, x], [0, 1, 0, y], [0, 0, 1, z], [0, 0, 0, 1]])


def frame(p):
    """xyz + yaw pitch roll"""
    return tr(p[0], p[1], p[2]) @ rz(p[3]) @ ry(p[4]) @ rx(p[5])


def link(p, q, kind):
    """modified DH: Rx(alpha) and x by a, then Rz(theta) and z by d"""
    a, al, d, th = p
    if kind.startswith("P"):
        d = d + q
    else:
        th = th + q
    return tr(a, 0, 0) @ rx(al) @ tr(0, 0, d) @ rz(th)


def vee(W):
    return W.map(lambda v: np.stack([v[..., 2, 1] - v[..., 1, 2], v[..., 0, 2] - v[..., 2, 0],
                                     v[..., 1, 0] - v[..., 0, 1]], -1) * 0.5)


def sym6(I):
    return np.array([[I[0], I[1], I[2]], [I[1], I[3], I[4]], [I[2], I[4], I[5]]], float)


class Ref:
    """robot: dict from robots.py.  States: arrays (S, n)."""

    def __init__(self, rb, q, dq=None, ddq=None, d3q=None, qdel=False, nt=3, par_dir=None):
        ORDER.nt = nt
        self.rb = rb
        n = self.n = rb["n"]
        q = np.atleast_2d(np.asarray(q, float))
        S = self.S = q.shape[0]
        z = np.zeros_like(q)
        self.q = q
        self.dq = z if dq is None else np.atleast_2d(dq)
        self.ddq = z if ddq is None else np.atleast_2d(ddq)
        self.d3q = z if d3q is None else np.atleast_2d(d3q)
        self.nt = nt
        self.K = n if qdel else (len(par_dir) if par_dir else 1)
        self.qj = []
        for i in range(n):
            c = {(0, 0, 0): q[:, i].reshape(S, 1, 1)}
            if nt > 1:
                c[(1, 0, 0)] = self.dq[:, i].reshape(S, 1, 1)
            if nt > 2:
                c[(2, 0, 0)] = self.ddq[:, i].reshape(S, 1, 1) / 2
            e = np.zeros((1, n, 1))
            e[0, i, 0] = 1
            c[(0, 1, 0)] = e
            if qdel:
                d = np.zeros((1, 1, n))
                d[0, 0, i] = 1
                c[(0, 0, 1)] = d
            self.qj.append(Jet(c))
        self.dqj = []
        for i in range(n):
            c = {(0, 0, 0): self.dq[:, i].reshape(S, 1, 1)}
            if nt > 1:
                c[(1, 0, 0)] = self.ddq[:, i].reshape(S, 1, 1)
            if nt > 2:
                c[(2, 0, 0)] = self.d3q[:, i].reshape(S, 1, 1) / 2
            self.dqj.append(Jet(c))

        def par(group, idx, val):
            c = {(0, 0, 0): np.full((1, 1, 1), float(val))}
            if par_dir:
                d = np.zeros((1, 1, len(par_dir)))
                for k, (g, i) in enumerate(par_dir):
                    if g == group and i == idx:
                        d[0, 0, k] = 1
                if d.any():
                    c[(0, 0, 1)] = d
            return Jet(c)
        DH = np.asarray(rb["DH"], float).reshape(n, 4)
        self.Ti = [frame([par("base", i, rb["base"][i]) for i in range(6)])]
        for i in range(n):
            self.Ti.append(link([par("DH", 4 * i + k, DH[i, k]) for k in range(4)], self.qj[i], rb["types"][i]))
        self.Tee = frame([par("ee", i, rb["ee"][i]) for i in range(6)])
        self.T0 = [self.Ti[0]]
        for i in range(n):
            self.T0.append(self.T0[-1] @ self.Ti[i + 1])
        self.T0.append(self.T0[-1] @ self.Tee)
        self._scales()

    # ---- magnitude of the terms, for tolerances
    def _scales(self):
        rb = self.rb
        DH = np.asarray(rb["DH"], float).reshape(self.n, 4)
        P = np.array([t.startswith("P") for t in rb["types"]])
        L = 1 + np.abs(rb["base"][:3]).sum() + np.abs(rb["ee"][:3]).sum() + np.abs(DH[:, [0, 2]]).sum()
        L = L + (np.abs(self.q) * P).sum(1)                      # (S,)
        ang = 1 + np.abs(DH[:, [1, 3]]).sum() + np.abs(rb["base"][3:]).sum() + np.abs(rb["ee"][3:]).sum() + (np.abs(self.q) * ~P).sum(1)
        self.L = L * (1 + 1e-2 * ang)
        self.V = np.abs(self.dq).sum(1)
        self.A = np.abs(self.ddq).sum(1)
        self.B = np.abs(self.d3q).sum(1)
        d = np.asarray(rb["dyn"], float).reshape(self.n, 10)
        c = np.abs(d[:, 1:4]).sum(1)
        m = np.abs(d[:, 0])
        self.sM = (m[None, :] * (self.L[:, None] + c[None, :]) ** 2).sum(1) + np.abs(d[:, 4:]).sum()
        g = np.abs(rb["gravity"] if rb["gravity"] is not None else [0, 0, 0]).sum()
        self.sG = g * (m[None, :] * (self.L[:, None] + c[None, :])).sum(1)

    # ---- kinematics
    def val(self, j, a=0):
        """value (S, ...) of the t^a coefficient, eps=del=0"""
        v = j.c.get((a, 0, 0))
        if v is None:
            return None
        f = [1.0, 1.0, 2.0][a]
        return np.broadcast_to(v, (self.S, 1, 1) + v.shape[3:])[:, 0, 0] * f

    def point_jac(self, Tj, point=None, upto=None):
        """(6 x n) Jacobian series of a point of frame Tj; keys (a,0,d), arrays (S,K,6,n)"""
        R = Tj.map(lambda v: v[..., :3, :3])
        p = Tj.map(lambda v: v[..., :3, 3])
        if point is not None:
            pt = np.asarray(point, float)
            p = p + R.map(lambda v: v @ pt)
        v = p.pick(e=1)
        w = vee(R.pick(e=1) @ Tm(R.pick(e=0)))
        S, n = self.S, self.n
        out = {}
        for k in set(v.c) | set(w.c):
            kd = self.K if k[2] else 1
            J = np.zeros((S, n, kd, 6))
            if k in v.c:
                J[..., :3] += v.c[k]
            if k in w.c:
                J[..., 3:] += w.c[k]
            out[k] = np.moveaxis(J, 1, 3)
        if not out:
            out[(0, 0, 0)] = np.zeros((S, 1, 6, n))
        return Jet(out)

    def jval(self, j, a=0):
        v = j.c.get((a, 0, 0))
        f = [1.0, 1.0, 2.0][a]
        if v is None:
            return np.zeros((self.S, 6, self.n))
        return v[:, 0] * f

    # ---- dynamics
    def mass(self):
        """M(t) series; keys (a,0,d), arrays (S,K,n,n); and potential gradient series"""
        n = self.n
        d = np.asarray(self.rb["dyn"], float).reshape(n, 10)
        M = Jet({})
        for i in range(n):
            J = self.point_jac(self.T0[i + 1], d[i, 1:4])
            Jv = J.map(lambda v: v[..., :3, :])
            Jw = J.map(lambda v: v[..., 3:, :])
            # (S,J,K,3,3) -> drop J axis (eps=0 part does not depend on it)
            R = Jet({k: v[:, 0, :, :3, :3] for k, v in self.T0[i + 1].pick(e=0).c.items()
                     if True})
            w = Tm(R) @ Jw
            M = M + (Tm(Jv) @ Jv) * d[i, 0] + Tm(w) @ (Jet.const(sym6(d[i, 4:])) @ w)
        return M

    def gravity(self, g=None):
        """gradient of the potential energy: series, arrays (S,n)"""
        n = self.n
        d = np.asarray(self.rb["dyn"], float).reshape(n, 10)
        if g is None:
            g = self.rb["gravity"] if self.rb["gravity"] is not None else [0, 0, 0]
        g = np.asarray(g, float)
        out = np.zeros((3, self.S, n))
        for i in range(n):
            c = np.append(d[i, 1:4], 1.0)
            for (a, e, dd), v in self.T0[i + 1].c.items():
                if e == 1 and dd == 0:
                    x = -d[i, 0] * ((v @ c)[..., :3] @ g)
                    out[a] += np.broadcast_to(x, (self.S, n, x.shape[2]))[:, :, 0]
        out[2] *= 2
        return out

    def coriolis(self, M=None):
        """series of C from Christoffel symbols; arrays list over a of (S,n,n)"""
        if M is None:
            M = self.mass()
        n, S = self.n, self.S
        C = np.zeros((3, S, n, n))
        for a in range(self.nt):
            D = M.c.get((a, 0, 1))
            if D is None:
                continue
            D = np.broadcast_to(D, (S, n, n, n))             # [s,k,i,j] = dM_ij/dq_k
            G = 0.5 * (np.einsum("skij->sijk", D) + np.einsum("sjik->sijk", D) - np.einsum("sijk->sijk", D))
            for b in range(self.nt - a):
                dqb = np.stack([self.dqj[k].get(b, 0, 0, (S, 1, 1))[:, 0, 0] for k in range(n)], 1)
                C[a + b] += np.einsum("sijk,sk->sij", G, dqb)
        C[2] *= 2
        return C

    def series(self, j, shape):
        f = [1.0, 1.0, 2.0]
        return [np.broadcast_to(j.c[(a, 0, 0)][:, 0], (self.S,) + shape) * f[a] if (a, 0, 0) in j.c
                else np.zeros((self.S,) + shape) for a in range(self.nt)]

    def newton_euler(self):
        """generalised forces of the chain moving along the trajectory (D'Alembert), arrays (S,n)"""
        n = self.n
        rb = self.rb
        d = np.asarray(rb["dyn"], float).reshape(n, 10)
        g = np.asarray(rb["gravity"] if rb["gravity"] is not None else [0, 0, 0], float)
        tau = np.zeros((self.S, n))
        for i in range(n):
            T = self.T0[i + 1].pick(e=0, d=0)
            def co(a):
                v = T.c.get((a, 0, 0))
                if v is None:
                    v = np.zeros((1, 1, 1, 4, 4))
                return np.broadcast_to(v, (self.S,) + v.shape[1:])[:, 0, 0]
            T0, T1, T2 = co(0), co(1), 2 * co(2)
            c = np.append(d[i, 1:4], 1.0)
            acc = (T2 @ c)[:, :3]
            R, R1, R2 = T0[:, :3, :3], T1[:, :3, :3], T2[:, :3, :3]
            Rt = np.swapaxes(R, 1, 2)
            def v3(W):
                return np.stack([W[:, 2, 1] - W[:, 1, 2], W[:, 0, 2] - W[:, 2, 0], W[:, 1, 0] - W[:, 0, 1]], 1) / 2
            om = v3(R1 @ Rt)
            al = v3(R2 @ Rt + R1 @ np.swapaxes(R1, 1, 2))
            I = R @ sym6(d[i, 4:]) @ Rt
            F = d[i, 0] * (acc - g)
            N = np.einsum("sij,sj->si", I, al) + np.cross(om, np.einsum("sij,sj->si", I, om))
            J = self.jval(self.point_jac(self.T0[i + 1].pick(d=0), d[i, 1:4]))
            tau += np.einsum("sij,si->sj", J[:, :3], F) + np.einsum("sij,si->sj", J[:, 3:], N)
        return tau

    def regressor(self, dqr, ddqr):
        """columns of M*ddqr, C*dqr, G for unit regressor parameters: arrays (S,n,10n); and their scales"""
        n, S = self.n, self.S
        g = np.asarray(self.rb["gravity"] if self.rb["gravity"] is not None else [0, 0, 0], float)
        rM = np.zeros((S, n, 10 * n))
        rC = np.zeros((S, n, 10 * n))
        rG = np.zeros((S, n, 10 * n))
        for i in range(n):
            T = self.T0[i + 1]
            J = self.point_jac(T)
            Jo = J.map(lambda v: v[..., :3, :])
            Jw = J.map(lambda v: v[..., 3:, :])
            R = Jet({k: v[:, 0, :, :3, :3] for k, v in T.pick(e=0).c.items()})
            w = Tm(R) @ Jw
            basis = [Tm(Jo) @ Jo]
            # derivative of R e_l along each joint
            dR = T.map(lambda v: v[..., :3, :3]).pick(e=1)
            for l in range(3):
                cl = {}
                for k, v in dR.c.items():
                    kd = self.K if k[2] else 1
                    x = np.broadcast_to(v[..., l], (S, n, kd, 3))
                    cl[k] = np.moveaxis(x, 1, 3)
                cl = Jet(cl)
                basis.append(Tm(Jo) @ cl + Tm(cl) @ Jo)
            for r, c in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)):
                E = np.zeros((3, 3))
                E[r, c] = E[c, r] = 1
                basis.append(Tm(w) @ (Jet.const(E) @ w))
            for k, B in enumerate(basis):
                col = 10 * i + k
                M = np.broadcast_to(B.c[(0, 0, 0)][:, 0], (S, n, n)) if (0, 0, 0) in B.c else np.zeros((S, n, n))
                C = self.coriolis(B)[0]
                rM[:, :, col] = np.einsum("sij,sj->si", M, ddqr)
                rC[:, :, col] = np.einsum("sij,sj->si", C, dqr)
            for k in range(4):
                h = np.zeros(4)
                h[3 if k == 0 else k - 1] = 1
                v = T.c.get((0, 1, 0))
                if v is not None:
                    x = -((v @ h)[..., :3] @ g)
                    rG[:, :, 10 * i + k] = np.broadcast_to(x, (S, n, x.shape[2]))[:, :, 0]
        return rM, rC, rG


# ---- joint-level polynomial laws
def odd_law(coef, v):
    """sum_k coef[...,k] * |v|^k * v"""
    coef = np.asarray(coef, float)
    o = coef.shape[-1]
    k = np.arange(o)
    return (coef * (np.abs(v)[..., None] ** k) * v[..., None]).sum(-1)


def odd_basis(o, v):
    k = np.arange(o)
    return (np.abs(v)[..., None] ** k) * v[..., None]


def spring_basis(o, e):
    k = np.arange(o)
    return e[..., None] ** (2 * k + 1)


@np.errstate(all="ignore")
def dyn_to_reg(d):
    d = np.asarray(d, float).reshape(-1, 10)
    r = d.copy()
    for i, x in enumerate(d):
        m, c = x[0], x[1:4]
        r[i, 1:4] = m * c
        I = sym6(x[4:]) + m * (c @ c * np.eye(3) - np.outer(c, c))
        r[i, 4:] = [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]
    return r.ravel()


@np.errstate(all="ignore")
def reg_to_dyn(p):
    p = np.asarray(p, float).reshape(-1, 10)
    d = p.copy()
    for i, x in enumerate(p):
        m = x[0]
        c = x[1:4] / m
        d[i, 1:4] = c
        I = sym6(x[4:]) - m * (c @ c * np.eye(3) - np.outer(c, c))
        d[i, 4:] = [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]
    return d.ravel()


def rot_ypr(y, p, r):
    cy, sy, cp, sp, cr, sr = np.cos(y), np.sin(y), np.cos(p), np.sin(p), np.cos(r), np.sin(r)
    Z = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    Y = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    X = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    return Z @ Y @ X
