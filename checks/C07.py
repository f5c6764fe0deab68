#!/usr/bin/env python3
"""C07: the same initial state run under many decompositions, tilings, kernel variants and modes; fields and
particles at the end (and at every step for the fields' norm) compared with the one-process, one-tile run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases

RULE = ("seeded initial states (random fields, particles with process/tile/cell borders over-represented); each is run on one process and one tile, and under "
        "seeded variants (process grid, topology, tiles, vector lengths, equivalent kernels, communication modes, sorting, buffer sizes); one case is one variant; "
        "non-trivial when particles were exchanged or the variant differs in the kernel used")
FLD = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz")
TOL = 1e-9


def state(run):
    e = run.at("after", None)
    last = run.all("after")[-1]
    return {n: last.global_field(n) for n in FLD}, [last.particles(s) for s in (1, 2)], last.it


def compare(c, cfg, base, run, key, tag, dat):
    (fb, pb, ib), (fv, pv, iv) = base, state(run)
    c.ok(ib == iv, f"steps/{key}", f"{tag}: {iv} instead of {ib} steps", dat)
    for g in ("e", "b", "j"):
        sc = max(np.abs(fb[g + a]).max() for a in "xyz")
        for a in "xyz":
            c.close(fv[g + a], fb[g + a], TOL, f"field_{g}/{key}", f"{tag}: {g}{a}", scale=sc, data=dat)
    moved = 0
    for s in (0, 1):
        A, B = pb[s], pv[s]
        if not c.ok(len(A["w"]) == len(B["w"]), f"count/{key}", f"{tag}: species {s + 1} has {len(B['w'])} instead of {len(A['w'])} particles", dat):
            continue
        ia, ib_ = np.argsort(A["w"]), np.argsort(B["w"])
        c.ok(np.array_equal(A["pid"][ia], B["pid"][ib_]), f"pid/{key}", f"{tag}: species {s + 1}: weights or extra attributes differ", dat)
        for a in cfg.axes:
            L = cfg.cells[a] * cfg.d[a]
            dx = B["xyz"[a]][ib_] - A["xyz"[a]][ia]
            dx -= L * np.round(dx / L)
            c.close(dx / cfg.d[a], 0 * dx, TOL, f"position/{key}", f"{tag}: species {s + 1} axis {a} (cells)", scale=1.0, data=dat)
        U = max(np.abs(A["u" + a]).max() for a in "xyz") if len(ia) else 1.0
        for a in "xyz":
            c.close(B["u" + a][ib_], A["u" + a][ia], TOL, f"momentum/{key}", f"{tag}: species {s + 1} u{a}", scale=max(U, 1e3), data=dat)
        moved += (B["rank"] > 0).sum() + (B["tile"] > 1).any(1).sum()
    return moved


def pgrid(r, cfg, maxproc=8):
    m = max(cfg.k["ng"], cfg.k["njg"]) + 1
    while True:
        p = [int(x) for x in r.integers(1, 5, 3)]
        if cfg.dim == 2:
            p[1] = 1
        if np.prod(p) <= maxproc and all(cfg.cells[a] // p[a] >= m for a in cfg.axes):
            return p


def body(c, d):
    exe = fbuild.build_sim("fomp", d + "/b")
    nb, nv = (60, 8) if chk.THOROUGH else (14, 5)
    jobs, meta = [], []
    for i in range(nb):
        r = chk.rng("C07", i)
        dim = 3 if i % 3 else 2
        spectral = i % 7 == 6
        direct = dim == 3 and i % 4 == 2
        o = int(r.integers(1, 4))
        orders = [o] * 3 if (spectral or direct or r.random() < 0.7) else [int(x) for x in r.integers(1, 4, 3)]
        norder = int(r.choice([2, 2, 4])) if not spectral else 8
        ng = int(r.integers(max(orders) + 2, 6))
        cfg = simcases.Cfg(r, dim, o=o, ng=ng, nsteps=8, pusher=int(r.choice([0, 0, 1])), dtcoef=float(r.uniform(0.4, 0.9)))
        cells = [int(r.integers(2 * (ng + 1), 3 * (ng + 1) + 8)) for _ in range(3)]
        if dim == 2:
            cells[1] = 4
        cfg.cells = cells
        extra = "l_spectral = .TRUE." if spectral else ""
        base = cfg.variant(nprocx=1, nprocy=1, nprocz=1, topology=0, ntilex=1, ntiley=1, ntilez=1, partcom=2, mpicom=1, mpibuf=5000, sort=0, o=orders, norder=norder,
                           nx=cells[0] + 1, ny=cells[1] + 1, nz=cells[2] + 1, currdepo=5 if direct else 0, rhodepo=2, fgpp=1, fieldgathe=0, extra_solver=extra)
        F = simcases.randfields(r, base, amp=1e10)
        if spectral:        # zero-mean, smooth enough is not needed: the comparison is with the same grid
            pass
        P = [simcases.particles(r, base, 500, 1, umax=5, ties=False), simcases.particles(r, base, 300, 50000, umax=0.5, ties=False)]
        vs = [base]
        for v in range(nv):
            p = [1, 1, 1] if spectral else pgrid(r, base)
            kw = dict(nprocx=p[0], nprocy=p[1], nprocz=p[2], topology=int(r.integers(0, 3)), ntilex=int(r.integers(1, 4)), ntiley=int(r.integers(1, 4)) if dim == 3 else 1,
                      ntilez=int(r.integers(1, 4)), partcom=int(r.integers(0, 3)), mpicom=int(r.integers(0, 3)), mpibuf=int(r.choice([100, 3000])),
                      sort=int(r.integers(0, 2)), period=int(r.integers(1, 4)), fgpp=int(r.integers(0, 3)), rhodepo=int(r.integers(0, 3)),
                      lvc=int(r.choice([4, 8, 16])), lvr=int(r.choice([4, 8, 32])), lvg=int(r.choice([4, 16, 64, 512])))
            if dim == 3:
                kw["fieldgathe"] = int(r.integers(0, 7))
                kw["currdepo"] = int(r.choice([3, 4, 5])) if direct else int(r.choice([0, 1, 2, 6]))
            else:
                kw["currdepo"] = int(r.integers(0, 3))
                kw["fieldgathe"] = int(r.integers(0, 4))
            vs.append(base.variant(**kw))
        for v, q in enumerate(vs):
            def f(i=i, v=v, q=q, F=F, P=P):
                rd = f"{d}/r{i}_{v}"
                os.makedirs(rd)
                sim.inject(rd + "/inject.bin", F, P)
                return sim.run(exe, rd, q.deck(), mon="after:7", env={"OMP_NUM_THREADS": "1" if v == 0 else str(1 + v % 2)}, timeout=150)
            jobs.append(f)
            meta.append((i, v, q))
    runs = simcases.pool(jobs, 4)
    base = None
    for (i, v, q), run in zip(meta, runs):
        k = q.k
        key = f"{q.dim}D_o{k['o']}_cd{k['currdepo']}_fg{k['fieldgathe']}_sep{k['fgpp']}".replace(" ", "")
        tag = f"case {i}.{v} {q.name()} sep {k['fgpp']} sort {k['sort']}"
        dat = {"config": k, "cells": q.cells}
        if not c.ok(run.rc == 0, f"run/{key}", lambda: f"{tag}: the run ended with {run.rc}: {run.tail()}", dat):
            base = None if v == 0 else base
            continue
        if v == 0:
            base = state(run)
            c.ok(all(np.isfinite(x).all() for x in base[0].values()), f"finite/{key}", f"{tag}: fields not finite", dat)
            continue
        if base is None:
            continue
        m = compare(c, q, base, run, key, tag, dat)
        c.case(tag, m > 0 or k["fieldgathe"] > 0, {"variant": tag, "particles_on_other_ranks_or_tiles": int(m)})
        c.count("particles_on_other_ranks_or_tiles", m)
        nt = [run.info[0][f"ntile{a}"] for a in "xyz"]
        c.count("runs_with_several_tiles", np.prod(nt) > 1)
        c.count("runs_with_three_or_more_tiles_along_an_axis", max(nt) > 2)
    c.extra["runs"] = len(runs)


if __name__ == "__main__":
    chk.run("C07", RULE, body, assumptions=["rounding differences stay below 1e-9 of the field scale over 8 steps",
                                            "the spectral solver is compared across tilings and kernels only (C09 compares its distributed forms)"])
