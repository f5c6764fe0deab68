#!/usr/bin/env python3
"""C20: the particles a run holds before its first step, against the species definitions of its input deck."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases
C = sim.C
RULE = ("seeded input decks (2D/3D, process grid, topology, tiles; per species: extent aligned or not aligned to cells, inside, across or outside the box, particles per cell, drift, temperature; density and frame factor; "
        "three distributions), each run on several decompositions; one case is one species in one run")


def config(i, r):
    dim = 3 if i % 3 else 2
    cfg = simcases.Cfg(r, dim, nsteps=1, partcom=0, mpicom=0)
    sp = []
    for s in range(int(r.integers(1, 4))):
        q = dict(name=f"sp{s}x", mass=float(r.uniform(0.5, 2000)), charge=float(r.choice([-1, 1, 2])), nppcell=int(r.integers(1, 7)))
        cells = []
        for a in range(3):
            n, lo, d = cfg.cells[a], cfg.lo[a], cfg.d[a]
            m = r.integers(0, 5)
            if m == 0 or (dim == 2 and a == 1):
                k0, k1 = 0, n
            elif m == 4:
                k0, k1 = -int(r.integers(1, 4)), n + int(r.integers(1, 5))
            else:
                k0 = int(r.integers(0, n))
                k1 = int(r.integers(k0 + (r.random() < 0.93), n + 1))
            if s == 2 and a == 0 and i % 4 == 0:
                k0, k1 = n + 2, n + 5       # entirely outside
            # a border may lie anywhere in a cell, except close to its middle, where rounding to a cell is ambiguous
            j = [0.0 if r.random() < 0.4 else float(r.uniform(-0.45, 0.45)) for _ in range(2)]
            q["xyz"[a] + "_min"], q["xyz"[a] + "_max"] = float(lo + (k0 + j[0]) * d), float(lo + (k1 + j[1]) * d)
            cells.append((max(k0, 0), min(k1, n)))
        b = r.normal(size=3)
        b *= r.choice([0, 0.01, 0.5, 0.95]) / np.linalg.norm(b)
        for a in range(3):
            q["vdrift_" + "xyz"[a]] = float(b[a])
        room = 1 - np.linalg.norm(b)
        hot = i % 2 and r.random() < 0.7
        for a in range(3):      # 6.8 standard deviations is the most the generator can return
            q["vth_" + "xyz"[a]] = float(r.uniform(0.2, 0.9) * room / 6.9 / 1.75) if hot else 0.0
        q["_cells"], q["_hot"] = cells, bool(hot)
        sp.append(q)
    pd = 1 if i % 2 == 0 else int(r.integers(1, 4))
    nl, g0 = float(10 ** r.uniform(22, 27)), float(r.choice([1.0, 1.0, 3.5]))
    deck = [{k: v for k, v in q.items() if k[0] != "_"} for q in sp]
    return cfg.variant(pdistr=pd, nlab=nl, g0=g0, splist=deck, species=len(sp)), sp


def check(c, i, v, cfg, sp, run, seen):
    ev = run.at("begin", 0)
    pd, dim = cfg.k["pdistr"], cfg.dim
    vol = np.prod(cfg.d if dim == 3 else [cfg.d[0], cfg.d[2]])
    for s, q in enumerate(sp):
        p = ev.particles(s + 1)
        key = f"d{pd}_{dim}D_" + ("mpi" if cfg.nproc > 1 else "one")
        tag = f"deck {i}.{v} {cfg.name()} pdistr {pd} species {q['name']} cells {q['_cells']} per cell {q['nppcell']}"
        dat = {"deck": cfg.deck().text()}
        rngs = [np.arange(a, max(a, b)) for a, b in q["_cells"]]
        if dim == 2:
            rngs[1] = np.arange(1)
        ncell = int(np.prod([len(x) for x in rngs]))
        want = ncell * q["nppcell"]
        n = len(p["x"])
        c.case(f"{i} {v} {s}", want > 0, {"deck": cfg.name(), "species": q["name"], "particles": n, "cells": ncell} if v == 0 and i < 4 else None)
        c.count("loaded_particles", n)
        c.ok(np.all(np.isin(p["rank"], np.arange(cfg.nproc))), "rank/" + key, tag)
        if not c.ok(n == want, "number/" + key, f"{tag}: {n} particles, expected {want}", dat):
            continue
        if n == 0:
            continue
        w = cfg.k["nlab"] * cfg.k["g0"] * vol / q["nppcell"]
        c.close(p["w"], np.full(n, w), 1e-13, "weight/" + key, tag + " weight", scale=w, data=dat)
        c.ok(np.all(p["pid"][:, 1:] == p["pid"][:1, 1:]), "extra/" + key, f"{tag}: extra attributes of fresh particles differ", dat)
        X = [p[a] for a in "xyz"]
        for a in cfg.axes:
            t = (X[a] - cfg.lo[a]) / cfg.d[a]
            c.ok(np.all((t >= rngs[a][0] - 1e-9) & (t <= rngs[a][-1] + 1 + 1e-9)), "extent/" + key, lambda: f"{tag}: particles at cells {t.min()}..{t.max()} along {'xyz'[a]}, the species covers {rngs[a][0]}..{rngs[a][-1] + 1}", dat)
            # inside the process' own domain
            for r in range(cfg.nproc):
                m = p["rank"] == r
                I = run.info[r]
                lo, hi = I["xyz"[a] + "_min_local"], I["xyz"[a] + "_max_local"]
                e = 1e-9 * cfg.d[a]
                c.ok(np.all((X[a][m] >= lo - e) & (X[a][m] < hi + e)), "local/" + key, lambda: f"{tag}: rank {r} [{lo}, {hi}) loaded particles at {X[a][m].min()}..{X[a][m].max()}", dat)
        if pd == 1:
            cell = np.stack([np.floor((X[a] - cfg.lo[a]) / cfg.d[a] + 1e-6) if a in cfg.axes else np.zeros(n) for a in range(3)], 1).astype(int)
            full = np.stack([g.ravel() for g in np.meshgrid(*rngs, indexing="ij")], 1)
            full = np.repeat(full, q["nppcell"], 0)
            so = lambda M: M[np.lexsort(M.T)]
            c.ok(np.array_equal(so(cell), so(full)), "per_cell/" + key, f"{tag}: cells do not hold {q['nppcell']} particles each", dat)
            P = np.stack([np.round((X[a] - cfg.lo[a]) / cfg.d[a] * 2520 * 2, 3) for a in cfg.axes], 1)
            P = np.round(so(P))
            if s in seen:
                c.ok(P.shape == seen[s].shape and np.array_equal(P, seen[s]), "decomposition/" + key, f"{tag}: positions differ from those loaded on another decomposition", dat)
            else:
                seen[s] = P
        else:
            # uniform in the covered part of each process' domain: mean and spread along every axis
            for r in range(cfg.nproc):
                m = p["rank"] == r
                I = run.info[r]
                k = []
                for a in cfg.axes:
                    lo = int(round((I["xyz"[a] + "_min_local"] - cfg.lo[a]) / cfg.d[a]))
                    hi = int(round((I["xyz"[a] + "_max_local"] - cfg.lo[a]) / cfg.d[a]))
                    k.append((max(lo, rngs[a][0]), min(hi, rngs[a][-1] + 1)))
                exp = int(np.prod([max(0, b - a) for a, b in k])) * q["nppcell"]
                c.ok(m.sum() == exp, "number_local/" + key, f"{tag}: rank {r} holds {m.sum()} particles, its covered cells ask for {exp}", dat)
                if exp >= 60:
                    for (lo, hi), a in zip(k, cfg.axes):
                        t = ((X[a][m] - cfg.lo[a]) / cfg.d[a] - lo) / (hi - lo)
                        z = abs(t.mean() - 0.5) * np.sqrt(12 * exp)
                        c.worst("uniform_sigma", z)
                        c.ok(z < 7 and t.min() > -1e-9 and t.max() < 1 + 1e-9 and t.max() - t.min() > 0.5, "uniform/" + key, f"{tag}: rank {r}: positions along {'xyz'[a]} are not uniform in the covered cells (mean {t.mean()}, range {t.min()}..{t.max()})", dat)
        u = np.stack([p["ux"], p["uy"], p["uz"]], 1)
        g = np.sqrt(1 + np.sum(u**2, 1) / C**2)
        c.close(p["gi"] * g, np.ones(n), 1e-11, "gamma/" + key, tag + " inverse Lorentz factor times Lorentz factor", scale=1.0, data=dat)
        vd = np.array([q["vdrift_" + a] for a in "xyz"])
        V = u * p["gi"][:, None] / C - vd
        if not q["_hot"]:
            c.close(V, np.zeros_like(V), 1e-11, "drift/" + key, tag + " velocity minus drift (units of c)", scale=1.0, data=dat)
        else:
            vt = np.array([q["vth_" + a] for a in "xyz"])
            if pd == 3:
                vt[:] = vt[0]
            z = np.abs(V.mean(0)) / (vt / np.sqrt(n))
            c.worst("drift_sigma", z.max())
            c.ok(np.all(np.abs(V) <= vt * 6.8 + 1e-12) and np.all(z < 7), "thermal/" + key, lambda: f"{tag}: thermal velocities off: largest {np.abs(V / vt).max(0)} vth, mean {z} standard errors from the drift", dat)
            if n > 50:
                sd = V.std(0) / vt
                c.ok(np.all((sd > 0.3) & (sd < 1.6)), "spread/" + key, lambda: f"{tag}: velocity spread {sd} vth", dat)


def body(c, d):
    exe = fbuild.build_sim("fast", d + "/b")
    todo = []
    for i in range(160 if chk.THOROUGH else 40):
        r = chk.rng("C20", i)
        cfg, sp = config(i, r)
        vs = [cfg]
        for _ in range(2):
            o = simcases.Cfg(r, cfg.dim, nsteps=1)
            ok = all(n // o.k["nproc" + a] >= max(cfg.k["ng"] + 1, 5) for a, n in zip("xyz", cfg.cells) if not (cfg.dim == 2 and a == "y"))
            if ok:
                vs.append(cfg.variant(**{k: o.k[k] for k in ("nprocx", "nprocy", "nprocz", "topology", "ntilex", "ntiley", "ntilez")}))
        for v, x in enumerate(vs):
            todo.append((i, v, x, sp))

    def job(i, v, cfg, sp):
        os.makedirs(f"{d}/r{i}_{v}")
        return lambda: sim.run(exe, f"{d}/r{i}_{v}", cfg.deck(), mon="begin:1", timeout=120)
    seen = {}
    for (i, v, cfg, sp), run in zip(todo, simcases.pool([job(*t) for t in todo], 4)):
        if c.ok(run.rc == 0, "run", lambda: f"deck {i}.{v} {cfg.name()}: ended with {run.rc}: {run.tail()}", {"deck": cfg.deck().text()}):
            check(c, i, v, cfg, sp, run, seen.setdefault(i, {}))
    c.extra["runs"] = len(todo)


if __name__ == "__main__":
    chk.run("C20", RULE, body, assumptions=["extents are rounded to whole cells (borders within 5 % of a cell's middle are not generated)", "speeds below that of light (drift plus the largest thermal excursion)",
                                           "the second and third distribution are random and judged statistically (7 standard errors)", "the third distribution uses the x thermal velocity for all axes"])
