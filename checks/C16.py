#!/usr/bin/env python3
"""C16: what the diagnostic routines return, inside monitored MPI runs and called on their own, against their definitions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, sim, simcases, kern
C, E0 = sim.C, 8.854187817620389e-12
RULE = ("seeded MPI runs (2D/3D, process grid, topology, tiles, empty tiles, guard widths) in which the diagnostic functions are called at every step and compared with the recorded state; "
        "direct calls of the divergence, energy, norm, Lorentz-transform and plane-crossing kernels on random content; one case is one returned quantity")
F6 = ["ex", "ey", "ez", "bx", "by", "bz"]


def div(F, d, sh, dim):
    s = 0
    for a in ([0, 1, 2] if dim == 3 else [0, 2]):
        s = s + ((F[a] - np.roll(F[a], 1, a)) if sh < 0 else (np.roll(F[a], -1, a) - F[a])) / d[a]
    return s


def cla(c, got, ref, tol, key, msg, scale, data=None):
    """elementwise scale"""
    c.close((np.asarray(got) - ref) / scale, np.zeros(np.shape(got)), tol, key, msg, scale=1.0, data=data)


def runs(c, d):
    exe = fbuild.build_sim("fast", d + "/b")
    N = 120 if chk.THOROUGH else 28
    todo = []
    for i in range(N):
        r = chk.rng("C16", i)
        dim = 3 if i % 3 else 2
        cfg = simcases.Cfg(r, dim, nsteps=int(r.integers(2, 5)))
        # dive and divb are asked for, so that the code computes them
        cfg = cfg.variant(out="output_frequency = 1\noutput_step_min = 0\noutput_step_max = 99\ndive = 1\ndivb = 1\nrho = 1")
        os.makedirs(f"{d}/r{i}")
        n = [int(r.integers(1, 400)), int(r.integers(0, 30))] if i % 4 else [int(r.integers(0, 3)), 300]
        P = [simcases.particles(r, cfg, m, 1000 * s, slow=bool(i % 2)) for s, m in enumerate(n)]
        if i % 5 == 4:      # all in one corner: most tiles and ranks are empty
            for p in P:
                for a in cfg.axes:
                    p[:, a] = cfg.lo[a] + (p[:, a] - cfg.lo[a]) * 0.1
        sim.inject(f"{d}/r{i}/inject.bin", simcases.randfields(r, cfg, amp=1e9), P)
        todo.append((i, cfg))

    def job(i, cfg):
        return lambda: sim.run(exe, f"{d}/r{i}", cfg.deck(), mon=f"out1:{1 | 2 | 8 | 32 | 128 | 1024}", timeout=120)
    for (i, cfg), run in zip(todo, simcases.pool([job(*t) for t in todo], 4)):
        mode = f"{cfg.dim}D_" + ("mpi" if cfg.nproc > 1 else "one")
        if c.ok(run.rc == 0, f"run/{mode}", lambda: f"run {i} {cfg.name()}: ended with {run.rc}: {run.tail()}", {"config": cfg.k}):
            for ev in run.all("out1"):
                state(c, i, cfg, run, ev, mode)
    c.extra["runs"] = N


def state(c, i, cfg, run, ev, mode):
    tag = f"run {i} step {ev.it} {cfg.name()}"
    D = [run.info[0][k] for k in ("dx", "dy", "dz")]
    dim = cfg.dim
    vol = np.prod(D if dim == 3 else [D[0], D[2]])
    dat = {"config": cfg.k}
    for s in range(1, cfg.k["species"] + 1):
        p = ev.particles(s)
        R = np.array([e.vecs[f"c{s}"][1] for e in ev.evs]) if isinstance(ev.evs[0].vecs[f"c{s}"], tuple) else np.array([e.vecs[f"c{s}"] for e in ev.evs])
        n = len(p["x"])
        g = 1 / p["gi"]
        for q in range(cfg.nproc):
            m = p["rank"] == q
            c.case(f"{i} {ev.it} {s} {q}", n > 0, {"run": cfg.name(), "particles": n, "reported": R[q].tolist()} if i < 3 and ev.it == 0 else None)
            c.ok(R[q][0] == m.sum(), f"local_count/{mode}", f"{tag} species {s} rank {q}: {R[q][0]} local particles reported, {m.sum()} held", dat)
            c.ok(R[q][1] == n, f"total_count/{mode}", f"{tag} species {s} rank {q}: {R[q][1]} particles in total reported, {n} held", dat)
            # the energy functions return sum w (gamma-1); the caller multiplies by m c^2
            w = p["w"]
            c.close(R[q][2], np.sum((g - 1) * w), 1e-12, f"kinetic_energy/{mode}", f"{tag} species {s} rank {q}: get_kinetic_energy", scale=np.sum(g * w) + 1e-300, data=dat)
            c.close(R[q][3], np.sum((g - 1)[m] * w[m]), 1e-12, f"kinetic_energy_loc/{mode}", f"{tag} species {s} rank {q}: get_loc_kinetic_energy", scale=np.sum((g * w)[m]) + 1e-300, data=dat)
            names = ["x", "y", "z", "ux", "uy", "uz"] + ["f" + f for f in F6]
            rows = []
            for k in range(12 + run.info[0]["npid"]):
                v = ev.evs[q].vecs[f"q{s}_{k + 1}"]
                v = v[1] if isinstance(v, tuple) else v
                ref = p["pid"][m][:, k - 12] if k >= 12 else p.get(names[k], np.zeros(n))[m]
                nm = names[k] if k < 12 else f"pid{k - 11}"
                c.count("extracted_values", m.sum())
                c.ok(v[0] == -7.5e300 and v[-1] == -7.5e300, f"getquantity_bounds/{mode}", f"{tag} species {s} rank {q} {nm}: wrote outside the result array", dat)
                v = v[1:-1]
                if dim == 2 and nm == "y":
                    continue
                c.ok(len(v) == len(ref) and np.array_equal(np.sort(v), np.sort(ref)), f"getquantity/{nm}_{mode}", lambda: f"{tag} species {s} rank {q} {nm}: extracted values are not those of the particles", dat)
                rows.append((v, ref))
            if m.sum() > 1:     # one row per particle over all quantities, i.e. one common particle order
                A = np.stack([v for v, _ in rows], 1)
                B = np.stack([x for _, x in rows], 1)
                key = lambda M: M[np.lexsort(M.T)]
                c.ok(np.array_equal(key(A), key(B)), f"getquantity_order/{mode}", f"{tag} species {s} rank {q}: quantities of different particles at one index", dat)
    G = {f: ev.global_field(f) for f in F6 + ["rho", "dive", "divb"]}
    Fv = [e.vecs["fields"] for e in ev.evs]
    Fv = np.array([v[1] if isinstance(v, tuple) else v for v in Fv])
    dive, divb = div([G[f] for f in F6[:3]], D, -1, dim), div([G[f] for f in F6[3:]], D, 1, dim)
    sce = sum(np.max(np.abs(G[f])) / D[a] for a, f in enumerate(F6[:3]) if a != 1 or dim == 3)
    scb = sum(np.max(np.abs(G[f])) / D[a] for a, f in enumerate(F6[3:]) if a != 1 or dim == 3)
    c.case(f"{i} {ev.it} fields", True)
    c.close(G["dive"], dive, 1e-13, f"dive/{mode}", f"{tag}: div E", scale=sce, data=dat)
    c.close(G["divb"], divb, 1e-13, f"divb/{mode}", f"{tag}: div B", scale=scb, data=dat)
    # every rank's value at nodes shared with the neighbour or in the periodic image agrees with the global one
    enr = {f: 0.5 * np.sum(G[f]**2) * vol for f in F6}
    nd, nr = np.sqrt(np.sum((E0 * dive - G["rho"])**2)), np.sum(G["rho"]**2)
    sn = E0 * sce * np.sqrt(dive.size) + np.sqrt(nr)
    c.close(np.sum(Fv[:, 2]), enr["ey"], 1e-12, f"field_energy_loc/{mode}", f"{tag}: sum of the local energies of ey", scale=enr["ey"], data=dat)
    c.close(np.sum(Fv[:, 4]), nr, 1e-12, f"norm2/{mode}", f"{tag}: sum of the local squared norms of rho", scale=nr + 1e-300, data=dat)
    c.close(np.sum(Fv[:, 5]), nd**2, 1e-11, f"norm_divErho_loc/{mode}", f"{tag}: sum of the local squared norms of eps0 div E - rho", scale=sn**2, data=dat)
    for q in range(cfg.nproc):
        c.close(Fv[q, 0], enr["ex"], 1e-12, f"field_energy/{mode}", f"{tag} rank {q}: energy of ex", scale=enr["ex"], data=dat)
        c.close(Fv[q, 1], enr["bz"], 1e-12, f"field_energy/{mode}", f"{tag} rank {q}: energy of bz", scale=enr["bz"], data=dat)
        c.close(Fv[q, 3], nd, 1e-11, f"norm_divErho/{mode}", f"{tag} rank {q}: norm of eps0 div E - rho", scale=sn, data=dat)


def kernels(c, d):
    K = kern.Kern(d + "/k", ["diags"], flags="-O1 -g -fcheck=bounds -finit-real=nan -DFFTW=1")
    M = "__diagnostics_MOD_"
    for i in range(400 if chk.THOROUGH else 80):
        r = chk.rng("C16k", i)
        # Lorentz transform of grid quantities
        g = float(10 ** r.uniform(0, 1.5)) if i % 5 else 1.0
        b = np.sqrt(1 - 1 / g**2) * (1 if i % 2 else -1)
        n2, n3 = int(r.integers(1, 20)), int(r.integers(1, 6))
        F = np.asfortranarray(r.normal(size=(10, n2, n3)))
        F[:3] *= 1e10
        F[3:6] *= 1e10 / C
        F[6:9] *= C
        for dim in (2, 3):
            A = F.copy(order="F") if dim == 3 else F[:, :, 0].copy(order="F")
            B = A.copy(order="F")
            sz = (10, n2, n3) if dim == 3 else (10, n2)
            f = M + f"transform_lorentz{dim}d"
            K(f, *sz, B, g, b * C, b / C)
            key = f"transform_lorentz{dim}d"
            c.case(f"lor {dim} {i}", g > 1)
            sc = g * (np.abs(A[0]) + np.abs(A[1]) + C * np.abs(A[3]) + C * np.abs(A[4])) + np.abs(A[2]) + C * np.abs(A[5])
            # from the frame moving with -b to the one at rest: E' = g(E - v x B), v = (0,0,-b) c, and so on
            want = A.copy(order="F")
            want[0], want[4] = g * (A[0] + b * C * A[4]), g * (A[4] + b / C * A[0])
            want[1], want[3] = g * (A[1] - b * C * A[3]), g * (A[3] - b / C * A[1])
            want[9], want[8] = g * (A[9] + b / C * A[8]), g * (A[8] + b * C * A[9])
            for k in range(10):
                s = sc if k < 3 else sc / C if k < 6 else g * (np.abs(A[8]) + C * np.abs(A[9])) + np.abs(A[k]) if k < 9 else g * (np.abs(A[8]) / C + np.abs(A[9]))
                cla(c, B[k], want[k], 1e-13, f"{key}/value", f"{key} case {i} component {k} gamma {g:.4g}", scale=s)
            inv = lambda X: (np.sum(X[:3]**2, 0) - C * C * np.sum(X[3:6]**2, 0), np.sum(X[:3] * X[3:6], 0) * C, C * C * X[9]**2 - X[8]**2)
            for q, (u, v) in enumerate(zip(inv(A), inv(B))):
                cla(c, v, u, 1e-12, f"{key}/invariant", f"{key} case {i} invariant {q} gamma {g:.4g}", scale=sc**2 if q < 2 else (g * (np.abs(A[8]) + C * np.abs(A[9])))**2)
            K(f, *sz, B, g, -b * C, -b / C)
            for k in range(10):
                s = sc if k < 3 else sc / C if k < 6 else g * (np.abs(A[8]) + C * np.abs(A[9])) + np.abs(A[k]) if k < 9 else g * (np.abs(A[8]) / C + np.abs(A[9]))
                cla(c, B[k], A[k], 1e-12 , f"{key}/round_trip", f"{key} case {i} component {k} gamma {g:.4g}", scale=g * s)
        # particles of a boosted frame, snapshot interpolation
        lorentz_parts(c, K, M, r, i, g, b)
        plane(c, K, M, r, i)
        grid(c, K, M, r, i)


def lorentz_parts(c, K, M, r, i, g, b):
    n = int(r.integers(1, 40))
    dt, time = float(r.uniform(0.5, 2)) * 1e-15, float(r.uniform(0, 50)) * 1e-15
    cur = {k: r.uniform(-1, 1, n) * 1e-5 for k in "xyz"}
    prv = {k: cur[k] - r.uniform(-0.9, 0.9, n) / np.sqrt(3) * C * dt for k in "xyz"}
    for P in (cur, prv):
        u = r.normal(size=(3, n)) * C * 10 ** r.uniform(-2, 1)
        P["ux"], P["uy"], P["uz"] = u
        P["g"] = np.sqrt(1 + np.sum(u**2, 0) / C**2)
        for k in F6:
            P[k] = r.normal(size=n) * (1e10 if k[0] == "e" else 1e10 / C)

    def lab(P, t):
        o = dict(P)
        o["t"] = g * (t + b * P["z"] / C)
        o["z"] = g * (P["z"] + b * C * t)
        o["uz"] = g * (P["uz"] + b * C * P["g"])
        o["ex"], o["by"] = g * (P["ex"] + b * C * P["by"]), g * (P["by"] + b / C * P["ex"])
        o["ey"], o["bx"] = g * (P["ey"] - b * C * P["bx"]), g * (P["bx"] - b / C * P["ey"])
        return o
    a, p = lab(cur, time), lab(prv, time - dt)
    tout = float(r.uniform(np.min(p["t"]), np.max(a["t"])))
    wp, wn = (a["t"] - tout) / (a["t"] - p["t"]), (tout - p["t"]) / (a["t"] - p["t"])
    base = ["x", "y", "z", "ux", "uy", "uz", "g"]
    for name, ks in (("with_fields", base + F6), ("without_fields", base)):
        arr = []
        for k in ks:
            arr += [cur[k].copy(), prv[k].copy()]
        K(M + "lorentz_transform_parts_" + name, n, g, float(b), time, dt, tout, *arr)
        c.case(f"parts {name} {i}", True)
        for q, k in enumerate(ks):
            if k == "g":
                continue
            ref = a[k] * wn + p[k] * wp
            sc = np.abs(wn) + np.abs(wp)
            mag = np.abs(a[k]) + np.abs(p[k])
            if k in "xyz":
                mag = mag + g * C * (abs(time) + dt) * (k == "z")
            elif k in ("uz",):
                mag = mag + g * C * (cur["g"] + prv["g"])
            elif k in F6:
                mag = mag + g * 1e11 / (1 if k[0] == "e" else C)
            # the weights divide by t - t_prev, the difference of two times that may be close
            cond = 1 + (np.abs(a["t"]) + np.abs(p["t"]) + g * time) / np.abs(a["t"] - p["t"])
            cla(c, arr[2 * q], ref, 1e-13, f"lorentz_parts_{name}/{'x' if k in 'xyz' else 'u' if k[0] == 'u' else k[0]}", f"lorentz_transform_parts_{name} case {i} {k} gamma {g:.3g}", scale=sc * mag * cond * 10)


def plane(c, K, M, r, i):
    n = int(r.integers(1, 60))
    nv = r.normal(size=3)
    nv /= np.linalg.norm(nv)
    pos, old = r.normal(size=3), r.normal(size=3)
    X, Xo = r.normal(size=(3, n)) * 2, r.normal(size=(3, n)) * 2
    if i % 3 == 0:      # axis-aligned plane and particles exactly on it
        nv = np.eye(3)[i % 9 // 3]
        k = int(np.argmax(nv))
        Xo[k, : n // 3] = old[k]
        X[k, n // 3: n // 2] = pos[k]
    npn = np.zeros(1, np.int64)
    idx, rel, relo = np.full(n, 77, np.int64), np.zeros(n), np.zeros(n)
    K(M + "load_test_plane", n, pos, old, nv, *[np.ascontiguousarray(x) for x in X], *[np.ascontiguousarray(x) for x in Xo], npn, idx, rel, relo)
    R, Ro = nv @ (X - pos[:, None]), nv @ (Xo - old[:, None])
    c.case(f"plane {i}", True)
    c.close(rel, R, 1e-14, "plane/distance", f"plane case {i}", scale=30.)
    c.close(relo, Ro, 1e-14, "plane/distance", f"plane case {i} (old)", scale=30.)
    cross = (relo <= 0) & (rel > 0)
    c.count("plane_crossings", cross.sum())
    c.ok(np.array_equal(idx != 0, cross) and set(idx) <= {0, 1}, "plane/selection", lambda: f"plane case {i}: index {idx.tolist()}, crossing {cross.astype(int).tolist()}")
    m = int(cross.sum())
    c.ok(npn[0] == m, "plane/count", f"plane case {i}: {npn[0]} reported, {m} crossed")
    q, qo = r.normal(size=n), r.normal(size=n)
    out = np.full(m + 2, -7.5e300)
    K(M + "select_quantity", n, m, idx, q, out[1:m + 1] if m else out[1:2].copy())
    c.ok(np.array_equal(out[1:m + 1], q[cross]) and out[0] == out[-1] == -7.5e300, "plane/select", lambda: f"plane case {i}: select_quantity returned {out.tolist()}")
    if m:
        out = np.full(m + 2, -7.5e300)
        K(M + "interpolate_quantity", idx, n, m, qo, q, rel, relo, out[1:m + 1])
        ref = (np.abs(rel) * qo + np.abs(relo) * q)[cross] / (np.abs(rel) + np.abs(relo))[cross]
        c.close(out[1:m + 1], ref, 1e-13, "plane/interpolate", f"plane case {i}: interpolate_quantity", scale=np.max(np.abs(q)) + np.max(np.abs(qo)))
        c.ok(out[0] == out[-1] == -7.5e300, "plane/interpolate_bounds", f"plane case {i}: wrote outside the result")


def grid(c, K, M, r, i):
    n = [int(x) for x in r.integers(2, 9, 3)]
    ng = [int(x) for x in r.integers(1, 4, 3)]
    if i % 4 == 0:
        n[1], ng[1] = 1, 0
    d = [float(x) * 1e-6 for x in r.uniform(0.5, 2, 3)]
    if i % 4 == 0:
        d[1] = 1e300
    sh = [m + 2 * q + 1 for m, q in zip(n, ng)]
    if i % 4 == 0:
        sh[1] = 2
    F = [np.asfortranarray(r.normal(size=sh)) for _ in range(3)]
    sl = tuple(slice(q, q + m + 1) for q, m in zip(ng, n))
    for f, s in (("calc_field_div", -1), ("calc_field_divb", 1)):
        out = np.asfortranarray(np.zeros(sh))
        K(M + f, out, *F, *n, *ng, *d)
        ref = div(F, d, s, 2 if i % 4 == 0 else 3)
        y = (slice(0, 1),) if i % 4 == 0 else (sl[1],)
        S = (sl[0],) + y + (sl[2],)
        c.case(f"grid {f} {i}", True)
        c.close(out[S], ref[S], 1e-13, f"kernel/{f}{'_2d' if i % 4 == 0 else ''}", f"{f} grid {n} guards {ng}", scale=30e6)
    if i % 4 == 0:
        return
    # nodes 0..n-1 or nodes 1..n: both count every node of a periodic or split domain once
    parts = [tuple(slice(q + s, q + s + m) for q, m in zip(ng, n)) for s in (0, 1)]
    pick = lambda got, f: min((f(p) for p in parts), key=lambda v: abs(v - got))
    e = np.zeros(1)
    K(M + "get_loc_field_energy", F[0], *n, *d, *ng, e)
    c.case(f"grid energy {i}", True)
    ref = 2 * pick(e[0], lambda p: np.sum(F[0][p]**2) * np.prod(d) * 0.5)
    c.close(e[0], ref * 0.5, 1e-12, "kernel/get_loc_field_energy", f"grid {n} guards {ng}", scale=ref)
    K(M + "get_loc_norm_2", F[0], *n, *ng, e)
    ref = pick(e[0], lambda p: np.sum(F[0][p]**2))
    c.close(e[0], ref, 1e-12, "kernel/get_loc_norm_2", f"grid {n} guards {ng}", scale=ref)
    rho = F[1] * E0
    K(M + "get_loc_norm_diverho", F[0], rho, *n, *ng, e)
    ref = pick(e[0], lambda p: np.sum((F[0][p] * E0 - rho[p])**2))
    c.close(e[0], ref, 1e-12, "kernel/get_loc_norm_divErho", f"grid {n} guards {ng}", scale=ref)
    A = np.asfortranarray(F[2][:, 0, :])
    e2 = np.zeros(1)
    K(M + "get_loc_field_energy_2d", A, n[0], n[2], d[0], d[2], ng[0], ng[2], e2)
    ref = 2 * pick(e2[0], lambda p: np.sum(A[p[0], p[2]]**2) * d[0] * d[2] * 0.5)
    c.close(e2[0], ref * 0.5, 1e-12, "kernel/get_loc_field_energy_2d", f"grid {n} guards {ng}", scale=ref)


def body(c, d):
    chk.isolated(c, "kernels", kernels, d)
    runs(c, d)


if __name__ == "__main__":
    chk.run("C16", RULE, body, assumptions=["periodic boundaries, so that the global field has one owner per node", "the energy functions return sums without the physical constants (the caller multiplies)",
                                           "interpolate_quantity weights each end of the step with its distance from the plane at the other end",
                                           "the inverse Lorentz factor of a Lorentz-transformed particle snapshot is not specified and not judged", "guard widths of the charge density equal those of the fields where both enter one norm"])
