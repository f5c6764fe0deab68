#!/usr/bin/env python3
"""C11: the sorting kernels on random particle sets, and every sorting phase of monitored runs: permutation of whole
particles inside each tile, bins non-decreasing, nothing touched when sorting is not due."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases
from kern import Kern

RULE = ("kernel calls with seeded particle sets (0-3000 particles, bins from 0.1 to 3 tile lengths, shifts of both signs, particles on and within rounding of bin borders and tile borders, 1-12 attributes); "
        "and every sorting phase of seeded MPI runs (process grid, tiles, 2D/3D, periods, starts, bin sizes, shifts); distinct by situation; non-trivial when the order changed")


def in_order(X, lo, hi, d):
    """bins in z-major order, borders within rounding may count as either side; bins clamped to the grid of bins"""
    cand = []
    n = [int(np.ceil((h - l) / w - 1e-12)) for l, h, w in zip(lo, hi, d)]
    for x, l, w, m in zip(X, lo, d, n):
        t = (x - l) / w
        e = 1e-12 * (1 + np.abs(t)) + 4e-16 * np.abs(x) / w
        cand.append([np.clip(np.floor(t + s * e), 0, max(m - 1, 0)).astype(int) for s in (-1, 1)])
    cur = -1
    keys = []
    for c0 in cand[0]:
        if len(X) == 2:
            keys += [c1 * n[0] + c0 for c1 in cand[1]]
        else:
            keys += [(c2 * n[1] + c1) * n[0] + c0 for c1 in cand[1] for c2 in cand[2]]
    K = np.sort(np.stack(keys, 1), 1)
    for i, row in enumerate(K):
        j = np.searchsorted(row, cur)
        if j == len(row):
            return i, len(np.unique(K[:, 0]))
        cur = row[j]
    return -1, len(np.unique(K[:, 0])) if len(K) else 0


def rows(A):
    return np.array(sorted(map(bytes, np.ascontiguousarray(A))))


def kernel(c, d):
    k = Kern(d + "/k", ["housekeeping/sorting.F90"], flags="-O1 -g -fcheck=bounds -finit-real=nan")
    for i in range(3000 if chk.THOROUGH else 500):
        r = chk.rng("C11k", i)
        dim = 3 if i % 3 else 2
        n = int(r.choice([1, 2, 30, 400, 3000])) if i % 10 else int(r.integers(1, 5))
        npid = int(r.integers(1, 13))
        lo, L = r.uniform(-30, 30, dim) * 1e-6, r.uniform(3, 12, dim) * 1e-6
        w = L * np.exp(r.uniform(np.log(0.08), np.log(3), dim))
        if i % 4 == 0:
            w = L / r.integers(1, 9, dim)
        sh = -w * r.uniform(0, 1, dim) if i % 2 else np.zeros(dim)
        if i % 5 == 4:
            sh = w * r.uniform(0, 0.9, dim)
        X = []
        for a in range(dim):
            t = r.random(n)
            x = lo[a] + t * L[a]
            q = r.random(n)
            x = np.where(q < 0.2, lo[a] + sh[a] + np.round((x - lo[a] - sh[a]) / w[a]) * w[a], x)
            x = np.where((q > 0.2) & (q < 0.25), np.nextafter(lo[a], -1), np.where((q > 0.25) & (q < 0.3), lo[a] + L[a], x))
            X.append(np.clip(x, np.nextafter(lo[a], -1), lo[a] + L[a]))
        U = [r.normal(size=n) for _ in range(4)]
        P = np.asfortranarray(r.normal(size=(n, npid)))
        before = np.column_stack(X + U + [P])
        x0, hi = lo + sh, lo + L + w
        chk.mark(c, f"kernel {dim}D n{n} npid{npid} case {i}")
        X = [np.ascontiguousarray(x) for x in X]
        if dim == 3:
            k("__sorting_MOD_pxr_particle_bin_sorting", n, *X, *U, P, npid, *map(float, x0), *map(float, hi), *map(float, w))
        else:
            k("__sorting_MOD_pxr_particle_bin_sorting_2d", n, *X, *U, P, npid, *map(float, x0), *map(float, hi), *map(float, w))
        after = np.column_stack(X + U + [P])
        key = f"kernel_{dim}D" + ("_shifted" if i % 5 == 4 else "")
        dat = {"case": i, "lo": lo.tolist(), "length": L.tolist(), "bin": w.tolist(), "shift": sh.tolist(), "n": n, "npid": npid}
        c.ok(np.array_equal(rows(before), rows(after)), f"permutation/{key}", f"case {i}: {n} particles with {npid} attributes: not a permutation of whole particles", dat)
        bad, nb = in_order(X, x0, hi, w)
        c.ok(bad < 0, f"order/{key}", f"case {i}: particle {bad} of {n} comes after one of a later bin", dat)
        c.case(f"{key} n{n} npid{npid} bins{int(np.log2(nb + 1))}", not np.array_equal(before, after))
        c.count("kernel_particles", n)


def body(c, d):
    chk.isolated(c, "kernel", kernel, d)
    exe = fbuild.build_sim("fomp", d + "/b")
    jobs, meta = [], []
    for i in range(60 if chk.THOROUGH else 16):
        r = chk.rng("C11", i)
        dim = 3 if i % 3 else 2
        cfg = simcases.Cfg(r, dim, nsteps=7, dtcoef=0.9, maxproc=4, pusher=4 if i % 5 == 3 else 0)
        per, st = [int(x) for x in r.integers(0, 4, 2)], [int(x) for x in r.integers(0, 4, 2)]
        sd, ss = float(r.choice([1.0, 0.5, 1.7, 6.0])), float(r.choice([0.0, -0.5, -1.0, 0.5]))
        cfg = cfg.variant(sort=0 if i % 8 == 7 else 1, sortdx=sd, sortsh=ss, splist=[
            dict(name="electron", mass=1.0, charge=-1, sorting_period=per[0], sorting_start=st[0]), dict(name="proton", mass=1836.0, charge=1, sorting_period=per[1], sorting_start=st[1])])
        npid = 9 if i % 5 == 3 else 3
        P = [simcases.particles(r, cfg, int(r.choice([1, 300, 1200])), 1, npid=npid, umax=5), simcases.particles(r, cfg, 400, 50000, npid=npid, umax=5)]

        def f(i=i, cfg=cfg, P=P):
            rd = f"{d}/r{i}"
            os.makedirs(rd)
            sim.inject(rd + "/inject.bin", None, P)
            return sim.run(exe, rd, cfg.deck(), mon="sort0:1 sort1:1", timeout=120, env={"OMP_NUM_THREADS": str(1 + i % 3)})
        jobs.append(f)
        meta.append((i, cfg, per, st, sd, ss))
    for (i, cfg, per, st, sd, ss), run in zip(meta, simcases.pool(jobs, 4)):
        tag0 = f"{cfg.name()} period {per} start {st} bin {sd} shift {ss}"
        chk.mark(c, tag0)
        key = f"run_{cfg.dim}D"
        dat = {"config": cfg.k}
        if not c.ok(run.rc == 0, f"ended/{key}", lambda: f"{tag0}: the run ended with {run.rc}: {run.tail()}", dat):
            continue
        E0, E1 = run.all("sort0"), run.all("sort1")
        c.ok(len(E0) == len(E1) == cfg.k["nsteps"], f"events/{key}", f"{tag0}: {len(E0)} sorting phases in {cfg.k['nsteps']} steps")
        I = run.info[0]
        w = [sd * I["d" + a] for a in "xyz"]
        sh = [ss * I["d" + a] for a in "xyz"]
        for e0, e1 in zip(E0, E1):
            for rk, (a0, a1) in enumerate(zip(e0.evs, e1.evs)):
                for t0, t1 in zip(a0.tiles, a1.tiles):
                    s = t0["species"] - 1
                    due = cfg.k["sort"] > 0 and per[s] > 0 and e0.it >= st[s] and e0.it % per[s] == 0
                    tag = f"{tag0} step {e0.it} rank {rk} species {s + 1} tile {t0['ix'], t0['iy'], t0['iz']}"
                    if not c.ok(t0["np"] == t1["np"] and t1["npmax"] >= t1["np"], f"count/{key}", f"{tag}: {t0['np']} particles before, {t1['np']} after", dat) or t0["np"] <= 0:
                        continue
                    M0, M1 = [np.column_stack([t["a"][q] for q in sim.PART if cfg.dim == 3 or q != "y"] + [t["a"]["pid"]]) for t in (t0, t1)]
                    same = np.array_equal(M0, M1)
                    if not due:
                        c.ok(same, f"not_due/{key}", f"{tag}: particles moved although sorting is not due", dat)
                        c.count("idle_tiles")
                        continue
                    c.ok(np.array_equal(rows(M0), rows(M1)), f"permutation/{key}", f"{tag}: not a permutation of whole particles", dat)
                    ax = [0, 2] if cfg.dim == 2 else [0, 1, 2]
                    X = [t1["a"]["xyz"[a]] for a in ax]
                    lo = [t1["xyz"[a] + "min"] + sh[a] for a in ax]
                    hi = [t1["xyz"[a] + "max"] + w[a] for a in ax]
                    bad, nb = in_order(X, lo, hi, [w[a] for a in ax])
                    c.ok(bad < 0, f"order/{key}", f"{tag}: particle {bad} of {t1['np']} comes after one of a later bin", dat)
                    c.case(f"{key} bin{sd} shift{ss} bins{int(np.log2(nb + 1))} period{per[s]} start{st[s]}", not same)
                    c.count("sorted_tiles")
                    c.count("sorted_particles", t1["np"])
    c.extra["runs"] = len(jobs)


if __name__ == "__main__":
    chk.run("C11", RULE, body, assumptions=["in 2D the unused y coordinate is not part of a particle's state"])
