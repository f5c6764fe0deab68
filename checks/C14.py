#!/usr/bin/env python3
"""C14: files written by monitored MPI runs against the state recorded just before they were written."""
import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases
C, E0, MU0 = sim.C, 8.854187817620389e-12, 4e-7 * np.pi

RULE = ("seeded MPI runs (process grid, topology, tiles, unequal guard widths, 2D/3D, output periods and step windows, subsets of the output fields, particle-dump windows and periods, "
        "subsets of the temporal diagnostics in both formats, time statistics with all buffer sizes); one case is one output file or record; distinct by (run, file)")
FIELDS = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho", "dive", "divj", "divb"]
TEMP = ["kinE", "exE", "eyE", "ezE", "bxE", "byE", "bzE", "divE-rho", "rho", "divE"]


def div(F, d, sh, dim):
    """discrete divergence of a staggered periodic field: backward (E, J) or forward (B) differences"""
    s = 0
    for a in ([0, 1, 2] if dim == 3 else [0, 2]):
        s = s + ((F[a] - np.roll(F[a], 1, a)) if sh < 0 else (np.roll(F[a], -1, a) - F[a])) / d[a]
    return s


def config(i, r):
    dim = 3 if i % 3 else 2
    o = int(r.integers(1, 4))
    ng = [int(r.integers(max(3, o + 1), 6)) for _ in range(3)]
    njg = [int(r.integers(max(3, o + 1), 6)) for _ in range(3)]
    cfg = simcases.Cfg(r, dim, o=o, ng=max(ng + njg), nsteps=int(r.integers(3, 7)))
    if i % 2:
        cfg = cfg.variant(ng=ng, njg=njg)
    on = [f for f in FIELDS if r.random() < 0.6] or ["ez"]
    per, smin = int(r.integers(1, 4)), int(r.integers(0, 3))
    smax = smin + int(r.integers(0, 6))
    out = [f"output_frequency = {per}", f"output_step_min = {smin}", f"output_step_max = {smax}", *[f"{f} = 1" for f in on]]
    tail, dumps = [], []
    pfields = {}
    for s, nm in enumerate(["electron", "proton"]):
        if r.random() < 0.75:
            w = {"period": int(r.integers(1, 3)), "sp": s + 1, "name": nm}
            L = ["section::particle_dump", f"species_name = {nm}", f"diag_period = {w['period']}"]
            for a in range(3):
                lo, hi = cfg.lo[a] - 1e-7, cfg.hi(a) + 1e-7
                if r.random() < 0.5:
                    lo, hi = lo + (hi - lo) * r.uniform(0, 0.4), hi - (hi - lo) * r.uniform(0, 0.4)
                if cfg.dim == 2 and a == 1:
                    lo, hi = -1.0, 1.0
                ul, uh = (-1e12, 1e12) if r.random() < 0.5 else (-float(r.uniform(0, 1e8)), float(r.uniform(0, 1e8)))
                ax = "xyz"[a]
                w[ax], w["u" + ax] = (lo, hi), (ul, uh)
                for k, v in ((f"dump_{ax}_min", lo), (f"dump_{ax}_max", hi), (f"dump_u{ax}_min", ul), (f"dump_u{ax}_max", uh)):
                    L.append(f"{k} = {v:.17e}".replace("e", "d") if False else f"{k} = {float(v)!r}")
            dumps.append(w)
            tail += L + ["end::particle_dump"]
    ton = [t for t in TEMP if r.random() < (0.55 if i % 4 else 1)]
    tper, tfmt = int(r.integers(1, 4)), int(r.integers(0, 2))
    temporal = "\n".join([f"frequency = {tper}", f"format = {tfmt}", *[f"{t} = 1" for t in ton]]) if ton else ""
    ts = None
    if i % 2 == 0:
        ts = dict(period=int(r.integers(1, 3)), buf=int(r.integers(1, 5)))
        tail += ["section::timestat", "activation = 1", f"period = {ts['period']}", "it_start = 0", "per_it = 0", f"buffersize = {ts['buf']}", "end::timestat"]
    cfg = cfg.variant(out="\n".join(out), tail="\n".join(tail), temporal=temporal)
    return cfg, dict(on=on, per=per, smin=smin, smax=smax, dumps=dumps, ton=ton, tper=tper, tfmt=tfmt, ts=ts)


def check(c, i, cfg, w, run, d):
    R = d + "/RESULTS/"
    tag = f"run {i} {cfg.name()}"
    mode = f"{cfg.dim}D_" + ("mpi" if cfg.nproc > 1 else "one")
    steps = cfg.k["nsteps"]
    ev = {e.it: e for e in run.all("out0")}
    c.ok(sorted(ev) == list(range(steps)), "events", f"{tag}: output phases at {sorted(ev)}")
    n = [cfg.cells[0], cfg.cells[1] if cfg.dim == 3 else 1, cfg.cells[2]]
    D = [run.info[0][k] for k in ("dx", "dy", "dz")]
    want = set()
    gf = {}

    def G(it, nm):
        if (it, nm) not in gf:
            gf[it, nm] = ev[it].global_field(nm)
        return gf[it, nm]

    def quantity(it, nm):
        if nm == "dive":
            return div([G(it, x) for x in ("ex", "ey", "ez")], D, -1, cfg.dim)
        if nm == "divj":
            return div([G(it, x) for x in ("jx", "jy", "jz")], D, -1, cfg.dim)
        if nm == "divb":
            return div([G(it, x) for x in ("bx", "by", "bz")], D, 1, cfg.dim)
        return G(it, nm)
    # --- field files
    for it in range(steps):
        if w["smin"] <= it <= w["smax"] and (it - w["smin"]) % w["per"] == 0:
            for nm in w["on"]:
                f = f"{nm}{it}.pxr"
                want.add(f)
                if not c.ok(os.path.exists(R + f), f"field_missing/{mode}", f"{tag}: {f} was not written"):
                    continue
                c.case(f"{i} {f}", True, {"run": cfg.name(), "file": f} if it == 0 and i < 4 else None)
                b = open(R + f, "rb").read()
                N = [n[0], cfg.cells[1] if cfg.dim == 3 else run.info[0]["ny_global"], n[2]]
                if not c.ok(len(b) == 60 + 8 * int(np.prod(N)), f"field_size/{mode}", f"{tag} {f}: {len(b)} bytes for a grid of {N}"):
                    continue
                h = struct.unpack_from("<ddiddiddi", b, 0)
                c.ok(list(h[2::3]) == N, f"field_header/{mode}", f"{tag} {f}: header says {h[2::3]}, grid is {N}")
                I = run.info[0]
                c.ok([h[0], h[1], h[3], h[4], h[6], h[7]] == [I[k] for k in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax")], f"field_header/{mode}", f"{tag} {f}: extents {h}")
                v = np.frombuffer(b, "<f8", -1, 60).reshape(N, order="F")
                ref = quantity(it, nm)
                if nm in FIELDS[:10]:
                    bad = ~(v == ref)
                    c.ok(not bad.any(), f"field/{nm if nm == 'rho' else nm[0]}_{mode}", lambda: f"{tag} {f}: {bad.sum()} of {bad.size} nodes differ from the state, first at {tuple(np.argwhere(bad)[0])}", {"config": cfg.k})
                else:
                    F = {"dive": "ex ey ez", "divj": "jx jy jz", "divb": "bx by bz"}[nm].split()
                    sc = sum(np.max(np.abs(G(it, x))) / D[a] for a, x in enumerate(F) if a != 1 or cfg.dim == 3)
                    c.close(v, ref, 1e-13, f"field/{nm}_{mode}", f"{tag} {f}", scale=max(sc, 1e-300), data={"config": cfg.k})
    # --- particle dumps
    for k in w["dumps"]:
        for it in range(0, steps, k["period"]):
            f = f"{k['name']}_it_{it}"
            want.add(f)
            if not c.ok(os.path.exists(R + f), f"dump_missing/{mode}", f"{tag}: {f} was not written"):
                continue
            p = ev[it].particles(k["sp"])
            sel = np.ones(len(p["x"]), bool)
            for a in ("x", "y", "z", "ux", "uy", "uz"):
                if cfg.dim == 2 and a == "y":
                    continue
                lo, hi = k[a]
                sel &= (p[a] > lo) & (p[a] < hi)
            rows = np.stack([p[a][sel] for a in ("x", "y", "z", "ux", "uy", "uz", "w")], 1)
            c.case(f"{i} {f}", 0 < sel.sum() < len(sel), {"run": cfg.name(), "file": f, "dumped": int(sel.sum()), "of": len(sel)})
            c.count("dumped_particles", sel.sum())
            v = np.fromfile(R + f, "<f8")
            cols = [0, 2, 3, 4, 5, 6] if cfg.dim == 2 else list(range(7))
            good = v.size == rows.size
            if good:
                v = v.reshape(7, -1).T
                key = lambda A: A[np.lexsort([A[:, q] for q in cols])][:, cols]
                good = np.array_equal(key(v), key(rows))
            c.ok(good, f"dump/{mode}", lambda: f"{tag} {f}: the file holds {v.size // 7} particles, {len(rows)} of {len(sel)} are in the window, contents differ", {"config": cfg.k})
    # --- temporal diagnostics
    its = list(range(0, steps, w["tper"])) if w["ton"] else []
    for t in w["ton"]:
        want.add(t)
        if not c.ok(os.path.exists(R + t), f"temporal_missing/{mode}", f"{tag}: {t} was not written (active: {w['ton']})", {"config": cfg.k}):
            continue
        k = cfg.k["species"] if t == "kinE" else 1
        dt = run.info[0]["dt"]
        if w["tfmt"] == 1:
            tok = open(R + t).read().split()
            head, vals = (int(tok[0]), float(tok[1])), np.array([float(x) for x in tok[2:]])
            tol = 1e-12
        else:
            b = open(R + t, "rb").read()
            head, vals = struct.unpack_from("<id", b, 0), np.frombuffer(b, "<f8", (len(b) - 12) // 8, 12)
            tol = 1e-12
        c.ok(head[0] == k and abs(head[1] - w["tper"] * dt) <= 1e-12 * dt, f"temporal_header/{mode}", f"{tag} {t}: header {head}, expected {k} values every {w['tper'] * dt}")
        if not c.ok(vals.size == k * len(its), f"temporal_count/{mode}", f"{tag} {t}: {vals.size} values, expected {k} for each of the steps {its}", {"config": cfg.k}):
            continue
        for q, it in enumerate(its):
            c.case(f"{i} {t} {it}", True)
            vol = np.prod(D if cfg.dim == 3 else [D[0], D[2]])
            if t == "kinE":
                ref, sc = [], []
                for s in range(1, k + 1):
                    p = ev[it].particles(s)
                    g = 1 / p["gi"]
                    m = [e for e in ev[it].evs if s in e.species][0].species[s]["mass"]
                    ref.append(np.sum((g - 1) * p["w"]) * m * C * C)
                    sc.append(np.sum(g * p["w"]) * m * C * C + 1e-300)
                for s in range(k):
                    c.close(vals[q * k + s], ref[s], 1e-12, f"temporal/kinE_{mode}", f"{tag} kinE species {s + 1} step {it}", scale=sc[s], data={"config": cfg.k})
                continue
            if t in ("divE-rho", "divE"):
                e = quantity(it, "dive")
                F = [np.abs(G(it, x)) for x in ("ex", "ey", "ez")]
                sc = sum(np.sqrt(np.sum(F[a]**2)) / D[a] for a in range(3) if a != 1 or cfg.dim == 3)
                if t == "divE":
                    ref = np.sqrt(np.sum(e**2))
                else:
                    ref, sc = np.sqrt(np.sum((E0 * e - G(it, "rho"))**2)), sc * E0
            elif t == "rho":
                ref = sc = np.sqrt(np.sum(G(it, "rho")**2))
            else:
                ref = sc = 0.5 * np.sum(G(it, t[:2])**2) * vol * (E0 if t[0] == "e" else 1 / MU0)
            c.close(vals[q], ref, max(tol, 1e-12), f"temporal/{t}_{mode}", f"{tag} {t} step {it}", scale=max(sc, 1e-300), data={"config": cfg.k})
    # --- time statistics
    if w["ts"]:
        want.add("time_stat")
        b = open(R + "time_stat", "rb").read() if os.path.exists(R + "time_stat") else b""
        recs = len(range(0, steps, w["ts"]["period"]))
        v = np.frombuffer(b, "<f8", max(0, (len(b) - 12) // 8), 12) if len(b) >= 12 else np.zeros(0)
        c.case(f"{i} time_stat", True)
        if c.ok(v.size == 13 * recs, f"timestat_count/{mode}", f"{tag} time_stat: {v.size / 13} records, {recs} steps (period {w['ts']['period']}, buffer {w['ts']['buf']})", {"config": cfg.k}):
            v = v.reshape(recs, 13)
            c.ok(bool(np.all(np.isfinite(v)) and np.all(v >= 0) and np.all(np.diff(v, axis=0) >= 0) and np.all(v < 1e4)), f"timestat/{mode}", lambda: f"{tag} time_stat: accumulated times not non-decreasing: {v.tolist()}")
    have = set(os.listdir(R))
    c.ok(have <= want, f"extra_files/{mode}", lambda: f"{tag}: files nobody asked for: {sorted(have - want)}", {"config": cfg.k})
    stray = [x for x in os.listdir(d) if x.startswith("fort.")]
    c.ok(not stray, f"stray_files/{mode}", f"{tag}: stray files {stray}", {"config": cfg.k})


def body(c, d):
    exe = fbuild.build_sim("fast", d + "/b")
    todo = []
    for i in range(160 if chk.THOROUGH else 36):
        r = chk.rng("C14", i)
        cfg, w = config(i, r)
        os.makedirs(f"{d}/r{i}")
        sim.inject(f"{d}/r{i}/inject.bin", simcases.randfields(r, cfg, amp=1e9), [simcases.particles(r, cfg, int(r.integers(5, 200)), 1000 * s, slow=bool(i % 2)) for s in range(2)])
        todo.append((i, cfg, w))

    def job(i, cfg, w):
        return lambda: sim.run(exe, f"{d}/r{i}", cfg.deck(), mon="out0:15", timeout=120)
    for (i, cfg, w), run in zip(todo, simcases.pool([job(*t) for t in todo], 4)):
        mode = f"{cfg.dim}D_" + ("mpi" if cfg.nproc > 1 else "one")
        if c.ok(run.rc == 0, f"run/{mode}", lambda: f"run {i} {cfg.name()}: ended with {run.rc}: {run.tail()}", {"config": cfg.k}):
            check(c, i, cfg, w, run, f"{d}/r{i}")
    c.extra["runs"] = len(todo)


if __name__ == "__main__":
    chk.run("C14", RULE, body, assumptions=["periodic boundaries, so that the global field has one owner per node", "in two dimensions the stored y coordinate of a particle carries no information",
                                           "momentum and position windows are open intervals, as the code compares"])
