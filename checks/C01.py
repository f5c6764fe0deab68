#!/usr/bin/env python3
"""C01: Esirkepov deposition obeys discrete continuity and carries the right total current."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, kern, parts, refdep

RULE = ("seeded random grids (cell sizes, origin, per-axis guards), particle sets (nodes, half nodes, borders, rest, "
        "ultra-relativistic) and orders; one case is one kernel call on one particle set; distinct by (kernel, orders, "
        "grid, particle set); non-trivial when at least one particle with non-zero weight moves")
A3 = lambda v: np.asarray(v, dtype=np.int64)


def cases3d(K, G, P, q, o, J, r):
    arr = sum((j.args() for j in J), [])
    pp = [P[k] for k in ("x", "y", "z", "ux", "uy", "uz", "gi", "w")]
    np_ = len(P["x"])
    pos = [float(v) for v in G.x0] + [G.dt] + [float(v) for v in G.d]
    flat = [int(v) for v in list(G.n) + list(G.g)]
    fixed = {(1, 1, 1): "1_1_1", (2, 2, 2): "2_2_2", (3, 3, 3): "3_3_3"}.get(tuple(o))
    out = []
    if fixed:
        nm = "depose_jxjyjz_esirkepov_" + fixed
        out.append((nm, arr + [np_] + pp + [q] + pos))
        out.append(("depose_jxjyjz_generic/0", arr + [np_] + pp + [q] + pos + [int(v) for v in o] + [False, 0]))
    else:
        for algo in (0, 2, 3):
            out.append((f"depose_jxjyjz_generic/{algo}", arr + [np_] + pp + [q] + pos + [int(v) for v in o] + [False, algo]))
    out.append(("pxr_depose_jxjyjz_esirkepov_n", arr + [np_] + pp + [q] + pos + [int(v) for v in o] + [True, False]))
    out.append(("depose_jxjyjz_generic/1", arr + [np_] + pp + [q] + pos + [int(v) for v in o] + [False, 1]))
    out.append(("depose_jxjyjz_esirkepov", [j.v for j in J] + [np_] + pp + [q] + pos + flat + [int(v) for v in o]))
    out.append(("depose_jxjyjz/1", [j.v for j in J] + [np_] + pp + [q] + pos + flat + [int(v) for v in o] + [1]))
    return out


def cases2d(K, G, P, q, o, J, r):
    ax = G.ax
    arr = sum((j.args() for j in J), [])
    np_ = len(P["x"])
    p3 = [P[k] for k in ("x", "y", "z", "ux", "uy", "uz", "gi", "w")]
    p2 = [P[k] for k in ("x", "z", "ux", "uy", "uz", "gi", "w")]
    pos = [float(G.x0[0]), float(G.x0[2]), G.dt, float(G.d[0]), float(G.d[2])]
    flat = [int(G.n[0]), int(G.n[2]), int(G.g[0]), int(G.g[2])]
    lv = int(r.choice([1, 2, 4, 8, 16, 64]))
    on = [int(o[0]), int(o[2])]
    out = []
    if on[0] == on[1] and on[0] in (1, 2, 3):
        out.append((f"pxr_depose_jxjyjz_esirkepov2d_{on[0]}_{on[0]}", arr + [np_] + p2 + [q] + pos + [lv, True, False, False, 0]))
    else:
        out.append(("depose_jxjyjz_generic_2d/3", arr + [np_] + p3 + [q] + pos + on + [False, lv, 3]))
    out.append(("pxr_depose_jxjyjz_esirkepov2d_n", arr + [np_] + p3 + [q] + pos + on + [True, False, False, 0]))
    out.append(("depose_jxjyjz_generic_2d/0", arr + [np_] + p3 + [q] + pos + on + [False, lv, 0]))
    out.append(("depose_jxjyjz_2d", [j.v for j in J] + [np_] + p3 + [q] + pos + flat + on + [lv]))
    out.append(("depose_jxjyjz_esirkepov_2d", [j.v for j in J] + [np_] + p3 + [q] + pos + flat + on))
    return out


def rho_code(K, G, P, q, o):
    """the code's own charge density, at the positions in P"""
    np_ = len(P["x"])
    g, n, d, x0 = [[int(v) for v in G.g], [int(v) for v in G.n], [float(v) for v in G.d], [float(v) for v in G.x0]]
    rho = np.zeros(G.fshape() if G.dim == 3 else (G.fshape()[0], 1, G.fshape()[1]), order="F")
    if G.dim == 3:
        K("pxr_depose_rho_n", rho, np_, P["x"], P["y"], P["z"], P["w"], q, *x0, *d, *n, *g, *[int(v) for v in o], True, False)
        return rho
    K("pxr_depose_rho_n_2dxz", rho, np_, P["x"], P["y"], P["z"], P["w"], q, x0[0], x0[2], d[0], d[2], n[0], n[2],
      g[0], g[2], int(o[0]), int(o[2]), True, False, False, 0)
    return rho[:, 0, :]


def body(c, d):
    K = kern.Kern(d, ["particle_deposition"])
    nset = 200 if chk.THOROUGH else 40
    orders3 = [(1, 1, 1), (2, 2, 2), (3, 3, 3)] + [(a, b, e) for a in (1, 2, 3) for b in (1, 2, 3) for e in (1, 2, 3) if not a == b == e]
    orders2 = [(1, 0, 1), (2, 0, 2), (3, 0, 3), (1, 0, 2), (1, 0, 3), (2, 0, 1), (2, 0, 3), (3, 0, 1), (3, 0, 2)]
    sizes = [1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 120]
    for dim, orders in ((3, orders3), (2, orders2)):
        for it in range(nset):
            r = chk.rng("C01", dim, it)
            G = parts.Grid(r, dim)
            o = orders[it % 3] if it % 2 == 0 else orders[int(r.integers(len(orders)))]
            if it >= 6 and it < 6 + len(orders):
                o = orders[it - 6]
            npart = int(sizes[it % len(sizes)])
            P = parts.particles(r, G, npart)
            q = float(r.choice([-1, 1, 6])) * 1.602e-19
            Q = dict(P)
            for a in G.ax:
                Q["xyz"[a]] = P["xyz"[a]] - G.dt * P["u" + "xyz"[a]] * P["gi"]
            c0, c1 = rho_code(K, G, Q, q, o), rho_code(K, G, P, q, o)
            vol = np.prod(G.d[G.ax])
            sc = abs(q) * P["w"].sum() / vol + 1e-300
            base = [refdep.Arr(G) for _ in range(3)]
            W = refdep.wide(G)
            r0, r1 = refdep.rho(W, P, q, o, 1.0), refdep.rho(W, P, q, o, 0.0)
            pad = [(3, 3)] * len(G.ax)
            c0, c1 = np.pad(c0, pad), np.pad(c1, pad)
            pre = r.normal(size=3) * sc * 1e5 if it % 3 == 0 else np.zeros(3)
            names = [x[0] for x in (cases3d if dim == 3 else cases2d)(K, G, P, q, o, base, r)]
            for i, nm in enumerate(names):
                r2 = chk.rng("C01k", dim, it, i)
                vary = "generic" in nm or nm[-1] == "n" or nm[-1] in "123" and "esirkepov" in nm  # array-shape arguments of their own
                J = [refdep.Arr(G, r2, [0.5 * (k == m) for k in range(3)], vary and it % 4 != 0) for m in range(3)]
                for m in range(3):
                    J[m].v += pre[m]
                args = (cases3d if dim == 3 else cases2d)(K, G, P, q, o, J, r2)[i][1]
                Pc = {k: v.copy() for k, v in P.items()}
                chk.mark(c, f"{nm} dim={dim} it={it} orders={o}")
                K(nm.split("/")[0], *args)
                for m in range(3):
                    J[m].v -= pre[m]
                JJ = [j.on_grid() for j in J]
                key = f"{nm} {o} {G.n} {it}"
                mv = bool(np.any(np.abs(P["ux"]) + np.abs(P["uz"]) > 0) and P["w"].sum() > 0)
                c.case(key, mv, {"kernel": nm, "orders": list(map(int, o)), "np": npart, "cells": G.n.tolist(), "guards": G.g.tolist()} if it < 2 and i < 3 else None)
                dv = refdep.divj(W, JJ) * G.dt
                data = lambda: {"dim": dim, "it": it, "kernel": nm, "orders": o, "cells": G.n, "guards": G.g, "d": G.d, "x0": G.x0, "dt": G.dt,
                                "particles": {k: v.tolist() for k, v in P.items()}}
                tol = 1e-10 + 1e-15 * np.abs(pre).max() / sc * 100
                c.close(dv + (r1 - r0), 0.0 * dv, tol, f"continuity/{nm}", f"{nm} orders {o}: drho+dt*div J (B-spline rho)", scale=sc, data=data)
                c.close(dv + (c1 - c0), 0.0 * dv, tol, f"continuity_code_rho/{nm}", f"{nm} orders {o}: drho+dt*div J (deposited rho)", scale=sc, data=data)
                for m in range(3):
                    tot = (q * P["w"] * P["u" + "xyz"[m]] * P["gi"]).sum() / vol
                    s = (abs(q) * P["w"]).sum() * parts.C / vol + 1e-300
                    t2 = 1e-9 + 1e-15 * np.abs(pre).max() * JJ[m].size / s * 100
                    c.close(JJ[m].sum(), tot, t2, f"total/{nm}", f"{nm} orders {o}: total J{'xyz'[m]}", scale=s, data=data)
                for k in P:
                    c.ok(np.array_equal(P[k], Pc[k]), f"input_changed/{nm}", f"{nm} changed its input particle array {k}")
    c.extra["kernel_calls"] = K.n


if __name__ == "__main__":
    chk.run("C01", RULE, body, assumptions=["particle displacement below one cell, positions inside the tile, guards at least order/2+2"])
