#!/usr/bin/env python3
"""C02: charge and direct current deposition against independent B-spline sums."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, kern, parts, refdep

RULE = ("seeded random grids, guards, array shapes, particle sets and orders; one case is one kernel call; distinct by "
        "(kernel, order, grid, set); non-trivial when some particle has a non-zero weight")
I = lambda v: [int(x) for x in v]
F = lambda v: [float(x) for x in v]


def noties(G, P, r):
    for a in range(3):
        P["xyz"[a]] = G.x0[a] + G.d[a] * (r.integers(0, G.n[a], len(P["w"])) + r.uniform(0.02, 0.48, len(P["w"])) + 0.5 * r.integers(0, 2, len(P["w"])))


def rho3(K, G, r, c, it, npart):
    o = (1, 2, 3)[it % 3]
    P = parts.particles(r, G, npart)
    q = float(r.choice([-1, 1, 3])) * 1.602e-19
    lv = int(r.choice([1, 2, 4, 8, 16, 64]))
    ks = [(f"depose_rho_scalar_{o}_{o}_{o}", [lv], (o,) * 3)]
    ks += {1: [("depose_rho_vecHVv2_1_1_1", [lv], (1,) * 3), ("depose_rho_vecHV_1_1_1", [], (1,) * 3), ("depose_rho_vecNOY_1_1_1", [lv], (1,) * 3)],
           2: [("depose_rho_vecHVv2_2_2_2", [lv], (2,) * 3)],
           3: [("depose_rho_vecHVv4_3_3_3", [lv], (3,) * 3)]}[o]
    on = (o,) * 3 if it % 2 == 0 else tuple(I(r.integers(0, 4, 3)))
    if 0 in on:
        noties(G, P, r)
        ks = []
    common = [npart, P["x"], P["y"], P["z"], P["w"], q] + F(G.x0) + F(G.d) + I(G.n) + I(G.g)
    ks.append(("pxr_depose_rho_n", I(on) + [True, False], on))
    for nm, tail, oo in ks:
        if not K.has(nm.lower() + "_"):
            continue
        yield nm, oo, P, q, common + tail, lv


def body(c, d):
    K = kern.Kern(d, ["particle_deposition"])
    nset = 300 if chk.THOROUGH else 60
    sizes = [1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 150]
    # --- charge, 3D
    for it in range(nset):
        r = chk.rng("C02rho3", it)
        G = parts.Grid(r, 3)
        npart = sizes[it % len(sizes)]
        for nm, oo, P, q, args, lv in rho3(K, G, r, c, it, npart):
            pre = np.asfortranarray(r.normal(size=G.fshape())) if it % 2 else np.zeros(G.fshape(), order="F")
            ref = refdep.rho(G, P, q, oo)
            sc = abs(q) * P["w"].sum() / np.prod(G.d) + 1e-300
            pre *= sc
            g = pre.copy(order="F")
            chk.mark(c, f"{nm} rho3 it={it} lvect={lv}")
            K(nm, g, *args)
            one(c, nm, "rho", oo, G, P, q, g - pre, ref, sc, it, lv)
    # --- charge, 2D
    for it in range(nset):
        r = chk.rng("C02rho2", it)
        G = parts.Grid(r, 2)
        npart = sizes[it % len(sizes)]
        P = parts.particles(r, G, npart)
        q = float(r.choice([-1, 1, 3])) * 1.602e-19
        oo = (it % 3 + 1, 0, it % 3 + 1) if it % 2 == 0 else (int(r.integers(0, 4)), 0, int(r.integers(0, 4)))
        if 0 in (oo[0], oo[2]):
            noties(G, P, r)
        g2 = np.zeros((G.fshape()[0], 1, G.fshape()[1]), order="F")
        sc = abs(q) * P["w"].sum() / (G.d[0] * G.d[2]) + 1e-300
        pre = r.normal() * sc if it % 3 == 0 else 0.0
        g2 += pre
        chk.mark(c, f"pxr_depose_rho_n_2dxz it={it}")
        K("pxr_depose_rho_n_2dxz", g2, npart, P["x"], P["y"], P["z"], P["w"], q, *F(G.x0[[0, 2]]), *F(G.d[[0, 2]]), *I(G.n[[0, 2]]),
          *I(G.g[[0, 2]]), oo[0], oo[2], True, False, False, 0)
        one(c, "pxr_depose_rho_n_2dxz", "rho", oo, G, P, q, g2[:, 0, :] - pre, refdep.rho(G, P, q, oo), sc, it, 0)
        if 0 not in (oo[0], oo[2]):
            g2 = np.zeros((G.fshape()[0], 1, G.fshape()[1]), order="F")
            chk.mark(c, f"pxr_depose_rhoold_n_2dxz it={it}")
            K("pxr_depose_rhoold_n_2dxz", g2, npart, P["x"], P["z"], P["ux"], P["uy"], P["uz"], P["gi"], P["w"], q, *F(G.x0[[0, 2]]), G.dt,
              *F(G.d[[0, 2]]), *I(G.n[[0, 2]]), *I(G.g[[0, 2]]), oo[0], oo[2], True, False)
            one(c, "pxr_depose_rhoold_n_2dxz", "rhoold", oo, G, P, q, g2[:, 0, :], refdep.rho(G, P, q, oo, 1.0), sc, it, 0)
    # --- direct current
    for dim in (3, 2):
        for it in range(nset):
            r = chk.rng("C02j", dim, it)
            G = parts.Grid(r, dim)
            npart = sizes[it % len(sizes)]
            P = parts.particles(r, G, npart)
            q = float(r.choice([-1, 1, 3])) * 1.602e-19
            o = (it // 2) % 3 + 1
            nodal = bool(it % 2)
            oo = (o, o, o)
            pp = [P[k] for k in ("x", "y", "z", "ux", "uy", "uz", "gi", "w")]
            if dim == 3:
                pos = F(G.x0) + [G.dt] + F(G.d)
                v = {1: "v2", 2: "v2", 3: "v3"}[o]
                ks = [(f"depose_jxjyjz_scalar_{o}_{o}_{o}", pos + [nodal], "v"), (f"depose_jxjyjz_vecHV{v}_{o}_{o}_{o}", pos + [nodal], "v"),
                      ("depose_jxjyjz_generic/2", pos + [o, o, o, nodal, 2], "v"), ("depose_jxjyjz_generic/3", pos + [o, o, o, nodal, 3], "v"),
                      ("depose_jxjyjz_vnr", None, "n")]
            else:
                p2 = [P[k] for k in ("x", "z", "ux", "uy", "uz", "gi", "w")]
                pos = F(G.x0[[0, 2]]) + [G.dt] + F(G.d[[0, 2]])
                ks = [(f"depose_jxjyjz_scalar2d_{o}_{o}_{o}", pos + [nodal], "2"), ("depose_jxjyjz_generic_2d/3", pos + [o, o, nodal, 8, 3], "v")]
            for i, (nm, tail, kind) in enumerate(ks):
                J = [refdep.Arr(G, r, [0.5 * (k == m) for k in range(3)], kind != "n" and it % 3 != 0) for m in range(3)]
                sc = abs(q) * P["w"].sum() * parts.C / np.prod(G.d[G.ax]) + 1e-300
                pre = [np.asfortranarray(r.normal(size=j.v.shape)) * sc * (it % 4 == 0) for j in J]
                for j, p in zip(J, pre):
                    j.v += p
                chk.mark(c, f"{nm} dim={dim} it={it} nodal={nodal}")
                lv = 0
                if kind == "n":
                    e = {1: (3, 3, 3), 2: (5, 5, 5), 3: (6, 5, 3)}[o]
                    nc = I(G.n + np.array(e))
                    ncell = int(np.prod(nc))
                    cells = [np.zeros((8, ncell), order="F") for _ in range(3)]
                    lv = int(r.choice([1, 4, 8, 16, 64]))
                    nc4 = [np.int32(x) for x in nc]
                    # ncx,ncy,ncz are INTEGER(isp) (by reference, little endian): an 8-byte integer serves both kinds
                    K(f"depose_jxjyjz_vecHV_vnr_{o}_{o}_{o}", *cells, npart, ncell, *pp, q, *F(G.x0), G.dt, *F(G.d), *I(G.n), *I(G.g), *nc, lv, nodal)
                    K(f"current_reduction_{o}_{o}_{o}", *[j.v for j in J], *cells, ncell, *I(G.n), *I(G.g), *nc)
                    nm = f"depose_jxjyjz_vecHV_vnr_{o}_{o}_{o}"
                else:
                    K(nm.split("/")[0], *sum((j.args() for j in J), []), npart, *(pp if kind == "v" else p2), q, *tail)
                for m in range(3):
                    ref = refdep.jdirect_on(J[m], G, P, q, oo, m, nodal)
                    one(c, nm, "j" + "xyz"[m], oo, G, P, q, J[m].v - pre[m], ref, sc, it, lv, nodal, count=(m == 0))
    c.extra["kernel_calls"] = K.n


def one(c, nm, what, oo, G, P, q, got, ref, sc, it, lv, nodal=None, count=True):
    if count:
        c.case(f"{nm} {what} {oo} {G.n} {it} {nodal} {lv}", bool((P["w"] > 0).any()),
               {"kernel": nm, "orders": list(map(int, oo)), "np": len(P["w"]), "cells": G.n.tolist(), "lvect": lv, "nodal": nodal} if it == 3 else None)
    data = lambda: {"kernel": nm, "orders": oo, "cells": G.n, "guards": G.g, "d": G.d, "x0": G.x0, "dt": G.dt, "q": q, "lvect": lv, "nodal": nodal,
                    "particles": {k: v.tolist() for k, v in P.items()}}
    c.close(got, ref, 1e-10, f"{what}/{nm}", f"{nm} orders {oo} nodal={nodal} lvect={lv}: {what} against the B-spline sum", scale=sc, data=data)


if __name__ == "__main__":
    chk.run("C02", RULE, body, assumptions=["positions inside the tile, guards at least order+1"])
