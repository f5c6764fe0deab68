#!/usr/bin/env python3
"""C05: every particle exchange of monitored MPI runs against the multiset/containment oracle."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases

RULE = ("seeded configurations (process grid, topology, tiles, communication mode, boundaries, species, attributes) with injected particles; one case "
        "is one exchange of one species observed on all ranks; non-trivial when some particle changed tile or process")
C = sim.C


def oracle(c, cfg, run, e0, e1, pb, off):
    key = cfg.name().replace(" ", "_")
    I = run.info
    np.seterr(over="ignore")
    L = [I[0]["xmax"] - I[0]["xmin"], I[0]["ymax"] - I[0]["ymin"], I[0]["zmax"] - I[0]["zmin"]]
    lo = [I[0]["xmin"], I[0]["ymin"], I[0]["zmin"]]
    hi = [I[0]["xmax"], I[0]["ymax"], I[0]["zmax"]]
    d = [I[0]["dx"], I[0]["dy"], I[0]["dz"]]
    tiny = [1e-9 * x for x in d]
    for s in range(1, I[0]["nspecies"] + 1):
        A, B = e0.particles(s), e1.particles(s)
        tag = f"{key} step {e0.it} species {s}"
        tset = "pb" + "".join(map(str, pb)) + f"_com{cfg.k['partcom']}{cfg.k['mpicom']}_{cfg.dim}D"
        dat = {"config": cfg.k, "pbound": pb, "offset": off}
        c.ok(len(np.unique(A["w"])) == len(A["w"]), f"harness/{tset}", f"{tag}: weights not unique before", dat)
        # which particles must disappear / be reflected
        gone, refl = np.zeros(len(A["w"]), bool), [np.zeros(len(A["w"]), bool) for _ in range(3)]
        X, U = [A["x"].copy(), A["y"].copy(), A["z"].copy()], [A["ux"].copy(), A["uy"].copy(), A["uz"].copy()]
        per = [np.zeros(len(A["w"])) for _ in range(3)]
        for a in cfg.axes:
            l, h = lo[a] + (off[2 * a] if pb[2 * a] == 1 else 0), hi[a] + (off[2 * a + 1] if pb[2 * a + 1] == 1 else 0)
            below, above = X[a] < l, X[a] >= h
            for m, kind, sg in ((below, pb[2 * a], 1), (above, pb[2 * a + 1], -1)):
                if kind == 1:
                    gone |= m
                elif kind == 2:
                    refl[a] |= m
                else:
                    per[a] = per[a] + sg * L[a] * m
        ida = np.argsort(A["w"])
        idb = np.argsort(B["w"])
        ida = ida[~gone[ida]]
        wa, wb = A["w"][ida], B["w"][idb]
        same = len(wa) == len(wb) and np.array_equal(wa, wb)
        lost, extra = np.setdiff1d(wa, wb), np.setdiff1d(wb, wa)
        c.count("particles_tracked", len(wa))
        c.count("particles_absorbed", gone.sum())
        if not c.ok(same, f"multiset/{tset}", f"{tag}: {len(wa)} expected, {len(wb)} found; lost {len(lost)}, extra or duplicated {len(wb) - len(np.unique(wb)) + len(extra)}", dat):
            c.case(f"{tag}")
            continue
        moved = (A["rank"][ida] != B["rank"][idb]) | (A["tile"][ida] != B["tile"][idb]).any(1)
        c.count("moved_between_ranks", (A["rank"][ida] != B["rank"][idb]).sum())
        c.count("moved_between_tiles", moved.sum())
        c.case(tag, moved.any(), {"config": cfg.name(), "step": e0.it, "particles": int(len(wa)), "changed_rank": int((A["rank"][ida] != B["rank"][idb]).sum()),
                                  "changed_tile": int(moved.sum()), "absorbed": int(gone.sum())} if e0.it == 1 and s == 1 else None)
        c.ok(np.array_equal(A["pid"][ida], B["pid"][idb]), f"pid/{tset}", f"{tag}: extra attributes changed", dat)
        c.ok(np.array_equal(A["gi"][ida], B["gi"][idb]), f"gaminv/{tset}", f"{tag}: inverse gamma changed", dat)
        for a in range(3):
            x = X[a][ida]
            got, gu = B["xyz"[a]][idb], B["u" + "xyz"[a]][idb]
            rf = refl[a][ida]
            e = x + per[a][ida]
            m = ~rf
            c.ok(np.all(np.abs(got[m] - e[m]) <= np.where(per[a][ida][m] == 0, 0.0, 1e-12 * L[a] if a in cfg.axes else 0)), f"position/{tset}", f"{tag} axis {a}: position changed by something other than the box length", dat)
            c.ok(np.array_equal(gu, np.where(rf, -U[a][ida], U[a][ida])), f"momentum/{tset}", f"{tag} axis {a}: momentum changed", dat)
            if rf.any():
                c.count("reflected", rf.sum())
                c.ok(np.all((got[rf] >= lo[a] - tiny[a]) & (got[rf] <= hi[a] + tiny[a])), f"reflect/{tset}", f"{tag} axis {a}: reflected particles outside the box", dat)
            if a not in cfg.axes:
                continue
            # containment: in its tile, in its rank
            if pb[2 * a] in (0, 1) and pb[2 * a + 1] in (0, 1):
                rl = np.array([i["xyz"[a] + "_min_local"] for i in I])[B["rank"][idb]]
                rh = np.array([i["xyz"[a] + "_max_local"] for i in I])[B["rank"][idb]]
                c.ok(np.all((got >= rl - tiny[a]) & (got <= rh + tiny[a])), f"rank/{tset}", f"{tag} axis {a}: {np.sum((got < rl - tiny[a]) | (got > rh + tiny[a]))} particles on a process that does not contain them", dat)
        # tiles: check in record order
        if not any(r.any() for r in refl):
            for r, ev in enumerate(e1.evs):
                for t in ev.tiles:
                    if t["species"] != s or t["np"] <= 0:
                        continue
                    c.ok(t["npmax"] >= t["np"], f"capacity/{tset}", f"{tag}: tile capacity {t['npmax']} < count {t['np']}", dat)
                    for a in cfg.axes:
                        g, q = t["a"]["xyz"[a]], "xyz"[a]
                        c.ok(np.all((g >= t[q + "min"] - tiny[a]) & (g <= t[q + "max"] + tiny[a])), f"tile/{tset}",
                             f"{tag} axis {a} tile {t['ix'], t['iy'], t['iz']} [{t[q + 'min']}, {t[q + 'max']}]: {np.sum((g < t[q + 'min'] - tiny[a]) | (g > t[q + 'max'] + tiny[a]))} of {len(g)} particles outside", dat)


def body(c, d):
    exe = fbuild.build_sim("fomp", d + "/b")
    cfgs = []
    n = 220 if chk.THOROUGH else 44
    for i in range(n):
        r = chk.rng("C05", i)
        dim = 3 if i % 4 else 2
        kind = ("periodic", "absorb", "periodic", "offset", "periodic", "mixed", "LL", "reflect")[i % 8]
        cfg = simcases.Cfg(r, dim, nsteps=6, partcom=i % 3 if kind != "reflect" else 1 + i % 2, mpicom=(i // 3) % 2, pusher=4 if kind == "LL" else 0, dtcoef=0.95)
        pb, off = [0] * 6, [0.0] * 6
        if kind in ("absorb", "offset"):
            pb = [1] * 6
        if kind == "offset":
            off = [float(s * r.uniform(0.2, 2.2) * cfg.d[a]) for a in range(3) for s in (1, -1)]
        if kind == "mixed":
            for a in range(3):
                pb[2 * a] = pb[2 * a + 1] = int(r.integers(0, 2))
        if kind == "reflect":
            a = int(r.choice(cfg.axes))
            pb[2 * a] = pb[2 * a + 1] = 2
        npid = 9 if kind == "LL" else 3
        cfgs.append((i, cfg, pb, off, npid, [simcases.particles(r, cfg, int(r.choice([1, 60, 700, 1500])), 1, npid=npid, umax=8), simcases.particles(r, cfg, 300, 50000, npid=npid, umax=8)]))

    def job(i, cfg, pb, off, npid, parts):
        def f():
            rd = f"{d}/r{i}"
            os.makedirs(rd)
            # absorbing offsets: only particles inside the particle box
            for P in parts:
                for a in cfg.axes:
                    if pb[2 * a] == 1:
                        P[:, a] = np.clip(P[:, a], cfg.lo[a] + off[2 * a] + 1e-12, cfg.hi(a) + off[2 * a + 1] - 1e-12)
            sim.inject(rd + "/inject.bin", None, parts)
            return sim.run(exe, rd, cfg.deck(), mon="pbc0:1 pbc1:1", env={"PXR_PB": " ".join(map(str, pb)), "PXR_OFF": " ".join(map(str, off)), "OMP_NUM_THREADS": str((1, 3, 2)[i % 3 if (i // 2) % 2 else 0]), "OMP_DYNAMIC": "false"}, timeout=120)
        return f
    runs = simcases.pool([job(*a) for a in cfgs], 4)
    for (i, cfg, pb, off, npid, parts), run in zip(cfgs, runs):
        chk.mark(c, cfg.name())
        tset = "pb" + "".join(map(str, pb)) + f"_com{cfg.k['partcom']}{cfg.k['mpicom']}_{cfg.dim}D"
        if not c.ok(run.rc == 0, f"run/{tset}", lambda: f"{cfg.name()} pbound {pb}: the run ended with {run.rc}: {run.tail()}", {"config": cfg.k}):
            continue
        E0, E1 = run.all("pbc0"), run.all("pbc1")
        c.ok(len(E0) == len(E1) == cfg.k["nsteps"], f"events/{tset}", f"{cfg.name()}: {len(E0)} exchanges in {cfg.k['nsteps']} steps")
        c.ok(sum(len(E0[0].particles(s)["w"]) for s in (1, 2)) == sum(len(p) for p in parts), f"inject/{tset}", f"{cfg.name()}: injected particles missing before the first exchange")
        for e0, e1 in zip(E0, E1):
            oracle(c, cfg, run, e0, e1, pb, off)
    c.extra["runs"] = len(runs)


if __name__ == "__main__":
    chk.run("C05", RULE, body, assumptions=["particles move less than a cell per step (the time step is below the stability limit)"])
