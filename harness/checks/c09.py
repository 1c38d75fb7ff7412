"""Friction, elastic and motor terms"""
import numpy as np

import lib
import numeric
import ref
import robots as rob

RULE = ("Random robots with friction orders 0-5 and elastic orders 0-5, SEA joints anywhere in the chain (also none or all), negative and zero coefficients and "
        "velocities; every joint-level term and coefficient matrix is compared with the polynomial laws, and the set of such functions with the declared orders. Distinct as in C01.")
DOMAIN = r"(dl|k|d|dm|Mm|(Dl|K|D|Dm)\d+)"


def law(coef, b):
    """values and tolerances from coefficients (joints, order) and basis (S, joints, order)"""
    return (coef * b).sum(-1), 1e-12 * (np.abs(coef) * np.abs(b)).sum(-1) + 1e-300


def expect(rb, st):
    n, e = rb["n"], rb["nej"]
    S = len(st["q"])
    want = {}
    def put(name, vt):
        want[name] = (vt[0][..., None], vt[1][..., None])
    def diags(prefix, coef, order, names):
        coef = np.array(coef, float).reshape(-1, order)
        for k in range(order):
            m = coef.shape[0]
            want[prefix + str(names(k))] = (np.broadcast_to(np.diag(coef[:, k]), (S, m, m)), np.zeros((S, 1, 1)))
    if rb["Dl_order"]:
        o = rb["Dl_order"]
        put("dl", law(np.array(rb["Dl"]).reshape(n, o), ref.odd_basis(o, st["dq"])))
        diags("Dl", rb["Dl"], o, lambda k: k + 1)
    if rb["ELASTIC"]:
        j = [i for i, t in enumerate(rb["types"]) if t.endswith("SEA")]
        ex, ev = st["x"] - st["q"][:, j], st["dx"] - st["dq"][:, j]
        if rb["K_order"]:
            o = rb["K_order"]
            v, t = law(np.array(rb["K"]).reshape(e, o), ref.spring_basis(o, ex))
            put("k", (v, t * 10))
            diags("K", rb["K"], o, lambda k: 2 * k + 1)
        if rb["D_order"]:
            o = rb["D_order"]
            put("d", law(np.array(rb["D"]).reshape(e, o), ref.odd_basis(o, ev)))
            diags("D", rb["D"], o, lambda k: k + 1)
        if rb["Dm_order"]:
            o = rb["Dm_order"]
            put("dm", law(np.array(rb["Dm"]).reshape(e, o), ref.odd_basis(o, st["dx"])))
            diags("Dm", rb["Dm"], o, lambda k: k + 1)
        want["Mm"] = (np.broadcast_to(np.diag(rb["Mm"]).reshape(e, e), (S, e, e)), np.zeros((S, 1, 1)))
    if rb["ELASTIC"] and not e:      # no elastic joint: only the existence is meaningful
        return set(want), {k: v for k, v in want.items() if k == "dl" or k.startswith("Dl")}
    return set(want), want


def kwf(i):
    orders = [[1, 0, 1], [2, 2, 3], [0, 1, 0], [3, 5, 2], [1, 3, 4], [0, 0, 0], [5, 2, 5], [4, 4, 1]]
    return dict(zeros=True, big=12, nmax=6, elastic=[2, 1, 2, 0, 2, 3][i % 6], dl=[1, 2, 3, 4, 5, 0][(i // 2) % 6], orders=orders[(i // 3) % 8], kin=0)


def run(ck):
    quick = ck.tier == "quick"
    N, S = (240, 12) if quick else (2500, 24)
    numeric.run_numeric(ck, None, N, S, kwf, expect, DOMAIN, only=["q", "dq", "x", "dx"])
