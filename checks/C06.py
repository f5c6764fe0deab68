#!/usr/bin/env python3
"""C06: every field exchange and current/charge summation of monitored MPI runs against a global reference array."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases

RULE = ("seeded configurations (process grid, topology, guard widths, local sizes, communication mode, 2D and 3D); before each exchange the arrays are overwritten "
        "with a function of the global node (guards: rubbish), before each summation with a function of process and local node; one case is one array in one exchange or "
        "summation over all ranks; non-trivial when the array has guards")


def axes_index(q, lb, shape):
    s0 = [q["nx0"], q["ny0"] if q["c_dim"] == 3 else 0, q["nz0"]]
    return [np.arange(m) + l + s for m, l, s in zip(shape, lb, s0)]


def exchange(c, cfg, run, e0, e1, names):
    I = run.info
    N = [int(I[0]["nx_global"]), int(I[0]["ny_global"]) if cfg.dim == 3 else 2, int(I[0]["nz_global"])]
    mode = f"{cfg.dim}D_com{cfg.k['mpicom']}"
    for nm in names:
        if nm not in e0.evs[0].fields:
            continue
        g = np.full(N, np.nan)
        for r, e in enumerate(e0.evs):
            q = I[r]
            lb, a = e.fields[nm]
            ax = axes_index(q, lb, a.shape)
            lo = [-l for l in lb]
            n = [q["nx"], q["ny"] if cfg.dim == 3 else 2, q["nz"]]
            sl = tuple(slice(l, l + m) for l, m in zip(lo, n))
            g[np.ix_(*[x[s] % m for x, s, m in zip(ax, sl, N)])] = a[sl]
        tag = f"{cfg.name()} {e1.label} step {e1.it} {nm}"
        c.case(tag, True, {"config": cfg.name(), "array": nm, "step": e1.it, "nodes": int(g.size)} if e1.it == 1 and nm == "ex" else None)
        c.ok(not np.isnan(g).any(), f"cover/{mode}", f"{tag}: the processes' interiors do not cover the grid")
        for r, e in enumerate(e1.evs):
            lb, a = e.fields[nm]
            ax = axes_index(I[r], lb, a.shape)
            ref = g[np.ix_(*[x % m for x, m in zip(ax, N)])]
            bad = ~(a == ref)
            if cfg.dim == 2:        # the second y plane of a 2D run carries nothing
                bad[:, 1:] = False
            c.count("nodes_compared", a.size)
            if not c.ok(not bad.any(), f"exchange/{nm}_{mode}", lambda: f"{tag} rank {r}: {bad.sum()} of {a.size} nodes are not the owner's value, first at local {tuple(int(i + l) for i, l in zip(np.argwhere(bad)[0], lb))}",
                        {"config": cfg.k, "step": e1.it}):
                break


def summation(c, cfg, run, e0, e1, names):
    I = run.info
    N = [int(I[0]["nx_global"]), int(I[0]["ny_global"]) if cfg.dim == 3 else 1, int(I[0]["nz_global"])]
    mode = f"{cfg.dim}D_com{cfg.k['mpicom']}"
    for nm in names:
        g, ga = np.zeros(N), np.zeros(N)
        for r, e in enumerate(e0.evs):
            lb, a = e.fields[nm]
            if cfg.dim == 2:
                a, lb = a[:, -lb[1]:-lb[1] + 1], (lb[0], 0, lb[2])
            ax = axes_index(I[r], lb, a.shape)
            ix = np.ix_(*[x % m for x, m in zip(ax, N)])
            np.add.at(g, tuple(np.broadcast_arrays(*ix)), a)
            np.add.at(ga, tuple(np.broadcast_arrays(*ix)), np.abs(a))
        tag = f"{cfg.name()} {e1.label} step {e1.it} {nm}"
        c.case(tag, True, {"config": cfg.name(), "array": nm, "step": e1.it, "sum": float(g.sum())} if e1.it == 1 and nm == "jx" else None)
        tot = 0.0
        for r, e in enumerate(e1.evs):
            q = I[r]
            lb, a = e.fields[nm]
            n = [q["nx"] + 1, q["ny"] + 1 if cfg.dim == 3 else 1, q["nz"] + 1]
            sl = tuple(slice(-l, -l + m) for l, m in zip(lb, n))
            v = a[sl]
            s0 = [q["nx0"], q["ny0"] if cfg.dim == 3 else 0, q["nz0"]]
            ref = g[np.ix_(*[(np.arange(m) + s) % t for m, s, t in zip(n, s0, N)])]
            c.count("nodes_compared", v.size)
            c.close(v, ref, 1e-13, f"sum/{nm}_{mode}", f"{tag} rank {r}", scale=float(ga.max()), data={"config": cfg.k, "step": e1.it})
            tot += v[:-1, :max(1, n[1] - 1), :-1].sum()
        c.close(tot, g.sum(), 1e-12, f"total/{nm}_{mode}", f"{tag}: total over the domain", scale=float(ga.sum()), data={"config": cfg.k})


def body(c, d):
    exe = fbuild.build_sim("fast", d + "/b")
    todo = []
    n = 200 if chk.THOROUGH else 40
    for i in range(n):
        r = chk.rng("C06", i)
        dim = 3 if i % 4 else 2
        spectral = i % 5 == 4
        ng = [int(r.integers(3, 7)) for _ in range(3)]
        njg = [int(r.integers(3, 7)) for _ in range(3)]
        o = int(r.integers(1, 4))
        if max(ng + njg) and o == 3:
            ng, njg = [max(4, x) for x in ng], [max(4, x) for x in njg]
        kw = {}
        cfg = simcases.Cfg(r, dim, o=o, ng=max(ng + njg), nsteps=3, mpicom=(0, 1, 2)[i % 3])
        if i % 2:       # unequal guard widths
            cfg = cfg.variant(ng=ng, njg=njg)
        if spectral:
            cfg = cfg.variant(ng=[max(4, x) for x in ng], njg=[max(4, x) for x in ng], extra_solver="l_spectral = .TRUE.", norder=8)
        todo.append((i, cfg, spectral))

    def job(i, cfg, spectral):
        return lambda: sim.run(exe, f"{d}/r{i}", cfg.deck(), mon="ebc0:18 ebc1:18 bbc0:18 bbc1:18 jbc0:4 jbc1:4 rbc0:8 rbc1:8",
                               env={"PXR_SCR": " ebc0 bbc0 jbc0 rbc0 "}, timeout=120)
    runs = simcases.pool([job(*t) for t in todo], 4)
    for (i, cfg, spectral), run in zip(todo, runs):
        mode = f"{cfg.dim}D_com{cfg.k['mpicom']}" + ("_spectral" if spectral else "")
        if not c.ok(run.rc == 0, f"run/{mode}", lambda: f"{cfg.name()}: the run ended with {run.rc}: {run.tail()}", {"config": cfg.k}):
            continue
        E = {l: run.all(l) for l in ("ebc0", "ebc1", "bbc0", "bbc1", "jbc0", "jbc1", "rbc0", "rbc1")}
        for k in ("ebc", "bbc", "jbc"):
            c.ok(len(E[k + "0"]) == len(E[k + "1"]) >= cfg.k["nsteps"], f"events/{mode}", f"{cfg.name()}: {len(E[k + '1'])} {k} events in {cfg.k['nsteps']} steps")
        for k in E:
            c.count("events_" + k, len(E[k]))
        for a, b in zip(E["ebc0"], E["ebc1"]):
            exchange(c, cfg, run, a, b, ("ex", "ey", "ez", "exy"))
        for a, b in zip(E["bbc0"], E["bbc1"]):
            exchange(c, cfg, run, a, b, ("bx", "by", "bz"))
        for a, b in zip(E["jbc0"], E["jbc1"]):
            summation(c, cfg, run, a, b, ("jx", "jy", "jz"))
        for a, b in zip(E["rbc0"], E["rbc1"]):
            summation(c, cfg, run, a, b, ("rho",))
    c.extra["runs"] = len(runs)


if __name__ == "__main__":
    chk.run("C06", RULE, body, assumptions=["local extents are at least the guard widths (the code does not support less)"])
