#!/usr/bin/env python3
"""C03: gathered fields against independent B-spline interpolation from the staggered nodes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, kern, parts, refdep

RULE = ("seeded random grids, array shapes, field contents (random, uniform, single-node impulse) and particle sets, orders, "
        "lower-order and nodal options; one case is one kernel call; distinct by (kernel, orders, options, grid, set)")
I = lambda v: [int(x) for x in v]
F = lambda v: [float(x) for x in v]
STAG = {"ex": (1, 0, 0), "ey": (0, 1, 0), "ez": (0, 0, 1), "bx": (0, 1, 1), "by": (1, 0, 1), "bz": (1, 1, 0)}
COMP = list(STAG)


def ref(A, G, P, comp, oo, lower, nodal):
    """value for each particle, and whether some order-0 weight is a tie"""
    Ss, tie = [], np.zeros(len(P["w"]), bool)
    for i, a in enumerate(G.ax):
        st = STAG[comp][a]
        o = oo[a] - 1 if (lower and st) else oo[a]
        x = (P["xyz"[a]] - G.x0[a]) / G.d[a] - (0.5 * st if not nodal else 0.0)
        if o == 0:
            tie |= np.abs(x + 0.5 - np.round(x + 0.5)) < 1e-9
        Ss.append(kern.shape(o, x, *A.range(i)))
    if len(Ss) == 2:
        return np.einsum("pi,pk,ik->p", *Ss, A.v, optimize=True), tie
    return np.einsum("pi,pj,pk,ijk->p", *Ss, A.v, optimize=True), tie


def fields(G, r, vary, it):
    fld = {}
    kind = it % 4
    for c in COMP:
        A = refdep.Arr(G, r, [0.5 * s for s in STAG[c]], vary)
        if kind == 0:
            A.v[...] = r.normal() * 1e9
        elif kind == 1:
            A.v[...] = 0.0
            A.v[tuple(int(r.integers(g, s - g)) for g, s in zip(A.ng, A.v.shape))] = 1.0
        else:
            A.v[...] = r.normal(size=A.v.shape) * 10.0 ** r.uniform(-3, 12)
        fld[c] = A
    return fld


def compare(c, nm, out, names, fld, G, P, oo, lower, nodal, it, lv):
    c.case(f"{nm} {oo} {lower} {nodal} {G.n} {it} {lv}", True,
           {"kernel": nm, "orders": list(map(int, oo)), "lower": lower, "nodal": nodal, "np": len(P["w"])} if it == 2 else None)
    for k in names:
        rf, tie = ref(fld[k], G, P, k, oo, lower, nodal)
        sc = float(np.max(np.abs(fld[k].v)))
        m = ~tie
        c.count("particles_compared", m.sum())
        c.count("ties_skipped", tie.sum())
        c.close(out[k][m], rf[m], 1e-11, f"{k}/{nm}", f"{nm} orders {oo} lower={lower} nodal={nodal} lvect={lv}: {k}", scale=max(sc, 1e-300),
                data=lambda: {"kernel": nm, "orders": oo, "lower": lower, "nodal": nodal, "cells": G.n, "d": G.d, "x0": G.x0, "it": it,
                              "x": P["x"].tolist(), "y": P["y"].tolist(), "z": P["z"].tolist(), "got": out[k].tolist(), "ref": rf.tolist()})


def body(c, d):
    K = kern.Kern(d, ["field_gathering"])
    nset = 240 if chk.THOROUGH else 48
    sizes = [1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 150]
    for dim in (3, 2):
        for it in range(nset):
            r = chk.rng("C03", dim, it)
            G = parts.Grid(r, dim)
            npart = sizes[it % len(sizes)]
            P = parts.particles(r, G, npart)
            o = it % 3 + 1
            oo = (o, o, o) if it % 5 else tuple(I(r.integers(1, 4, 3)))
            same = len(set(oo)) == 1
            o = oo[0]
            lower, nodal = bool((it // 3) % 2), bool((it // 6) % 2)
            lv = int(r.choice([1, 2, 4, 8, 16, 64]))
            K.seti("params", "lvec_fieldgathe", lv)
            fv = fields(G, r, True, it)        # every array its own shape
            fs = fields(G, r, False, it)       # all arrays alike
            n3, g3, x0, dd = I(G.n), I(G.g), F(G.x0), F(G.d)
            xyz, xz = [P["x"], P["y"], P["z"]], [P["x"], P["z"]]
            E, B = COMP[:3], COMP[3:]

            def call(nm, names, fld, pos, geo, arrs, tail, pre=(), post=()):
                if not K.has(nm.split("/")[0].lower() + "_"):
                    return
                out = {k: np.zeros(npart) for k in names}
                chk.mark(c, f"{nm} dim={dim} it={it} lvect={lv}")
                K(nm.split("/")[0], npart, *pos, *[out[k] for k in names], *geo, *arrs, *tail)
                compare(c, nm, out, names, fld, G, P, oo, lower, nodal, it, lv)
            V = lambda ns: sum((fv[k].args() for k in ns), [])
            S = lambda ns: [fs[k].v for k in ns]
            oi = list(map(int, oo))
            if dim == 3:
                geo = x0 + dd
                for algo in (0, 1, 2):
                    call(f"geteb3d_energy_conserving_generic/{algo}", COMP, fv, xyz, geo + oi, V(COMP), [False, lower, nodal, lv, algo])
                for nm, names in (("pxrgete3d_n_energy_conserving", E), ("pxrgetb3d_n_energy_conserving", B)):
                    call(nm, names, fv, xyz, geo + oi, V(names), [lower, nodal])
                for nm, names in (("pxr_gete3d_n_energy_conserving", E), ("pxr_getb3d_n_energy_conserving", B)):
                    call(nm, names, fv, xyz, geo + oi, V(names), [False, lower, nodal])
                if not nodal:
                    for algo in (0, 1, 2):
                        call(f"geteb3d_energy_conserving/{algo}", COMP, fs, xyz, geo + n3 + g3 + oi, S(COMP), [False, lower, lv, algo])
                if same:
                    t = f"{o}_{o}_{o}"
                    for nm, names in ((f"gete3d_energy_conserving_scalar_{t}", E), (f"getb3d_energy_conserving_scalar_{t}", B)):
                        call(nm, names, fv, xyz, geo, V(names), [lower, nodal])
                    call("geteb3d_energy_conserving_" + {1: "vecV4_1_1_1", 2: "vecV4_2_2_2", 3: "vecV3_3_3_3"}[o], COMP, fv, xyz, geo, V(COMP), [lv, lower, nodal])
                    for v in ("vec", "vec2"):
                        call(f"gete3d_energy_conserving_{v}_{t}", E, fs, xyz, geo + n3 + g3, S(E), [lv, lower, nodal])
                        call(f"getb3d_energy_conserving_{v}_{t}", B, fs, xyz, geo + n3 + g3, S(B), [lv, lower, nodal])
                    for v in ("vecV1", "vecV2", "vecV3", "vec", "blockvec", "blockvec2"):
                        if v == "vecV2" and o == 1 and not lower:
                            continue  # implements the lower order only; nothing in the tree calls it
                        if not (o == 3 and v == "vecV3"):
                            call(f"geteb3d_energy_conserving_{v}_{t}", COMP, fs, xyz, geo + n3 + g3, S(COMP), [lv, lower, nodal])
            else:
                g2 = x0[0:1] + x0[2:] + dd[0:1] + dd[2:]
                for algo in (0, 1, 2):
                    call(f"geteb2dxz_energy_conserving_generic/{algo}", COMP, fv, xyz, x0 + dd + [oi[0], oi[0] if same else oi[1], oi[2]], V(COMP), [False, lower, nodal, lv, algo])
                    if not nodal:
                        call(f"geteb2dxz_energy_conserving/{algo}", COMP, fs, xyz, x0 + dd + [n3[0], 0, n3[2], g3[0], 0, g3[2]] + oi, S(COMP), [False, lower, lv, algo])
                for nm, names in (("pxr_gete2dxz_n_energy_conserving", E), ("pxr_getb2dxz_n_energy_conserving", B)):
                    call(nm, names, fv, xyz, g2 + [oi[0], oi[2]], V(names), [False, False, lower, nodal])
                if same:
                    t = f"{o}_{o}"
                    for q, names in (("e", E), ("b", B)):
                        call(f"pxr_get{q}2dxz_energy_conserving_scalar_{t}", names, fv, xz, g2, V(names), [lower, nodal])
                        call(f"pxr_get{q}2dxz_energy_conserving_vect_{t}", names, fv, xz, g2, V(names), [lv, lower, nodal])
                    call(f"pxr_geteb2dxz_energy_conserving_vect_{t}", COMP, fv, xz, g2, V(COMP), [lv, lower, nodal])
    c.extra["kernel_calls"] = K.n


if __name__ == "__main__":
    chk.run("C03", RULE, body, assumptions=["positions inside the tile, guards at least order+1", "order-0 ties (a particle exactly between two nodes) are skipped"])
