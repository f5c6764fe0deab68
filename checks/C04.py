#!/usr/bin/env python3
"""C04: momentum and position pushes against the schemes' defining equations (longdouble reference, implicit residuals)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import chk, kern, parts, refdep
from C03 import ref as gref, fields as gfields, COMP

RULE = ("seeded random particle sets (at rest to ultra-relativistic, field strengths from 0 to extreme, pure E, pure B, crossed force-free, "
        "parallel), both charge signs, block lengths; one case is one kernel call; distinct by (kernel, kind of set, size, seed)")
C = parts.C
LD = np.longdouble
QE, ME = 1.602176565e-19, 9.10938291e-31
PI = LD("3.141592653589793238462643383279503")
MU0 = 4 * PI * LD("1e-7")
EPS0 = 1 / (MU0 * LD(C) ** 2)


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def dot(a, b):
    return (a * b).sum(0)


def gam(u):
    return np.sqrt(1 + dot(u, u) / LD(C) ** 2)


def boris(u, E, B, q, m, dt):
    """half kick, rotation by the Cayley transform of the gyration generator, half kick"""
    h = LD(q) * LD(dt) / (2 * LD(m))
    um = u + h * E
    t = h * B / gam(um)
    b2 = dot(t, t)
    # (1 - T) u+ = (1 + T) um, T v = v x t, solved in closed form: (1-T)^-1 w = (w + w x t + t (t.w)) / (1+t^2)
    w = um + cross(um, t)
    up = (w + cross(w, t) + t * dot(t, w)) / (1 + b2)
    return up + h * E


def rr(model, u, E, B, q, m, dt, Eo=None, Bo=None):
    q, m, dt, c = LD(q), LD(m), LD(dt), LD(C)
    ub = boris(u, E, B, q, m, dt)
    a = (ub - u) / dt
    ua = (ub + u) / 2
    g = gam(ua)
    v = ua / g
    if model == "S09":
        tau0 = MU0 * q ** 2 / (6 * PI * m * c)
        dv = tau0 * (a - v * dot(v, a) / c ** 2) / (1 + tau0 * dot(v, a) / c ** 2)
        return ub, ub + dt * (q / m * cross(dv, B) - g * dot(dv, a) * ua / c ** 2)
    F = E + cross(v, B)
    if model == "B08":
        u2 = dot(ua, ua)
        Fp = F - np.where(u2 > 0, dot(E, ua) / np.where(u2 > 0, u2, 1), 0) * ua
        k = q ** 4 * dt / (6 * PI * EPS0 * m ** 3 * c ** 5)
        return ub, ub - k * g * dot(Fp, Fp) * ua
    # Landau-Lifshitz
    dE, dB = (E - Eo) / dt, (B - Bo) / dt
    k = q ** 3 * dt / (6 * PI * EPS0 * m ** 2 * c ** 3)
    f = g * (dE + cross(v, dB)) + q / m * (cross(E, B) - cross(B, cross(v, B)) + dot(E, v) * E / c ** 2
                                           - g * (dot(F, F) - dot(E, v) ** 2 / c ** 2) * ua / c ** 2)
    return ub, ub + k * f


def sets(r, n, kind, dt, q, m):
    sp = np.where(r.random(n) < 0.1, 0.0, 10.0 ** r.uniform(-6, 3, n))
    d = r.normal(size=(3, n))
    u = d / np.linalg.norm(d, axis=0) * sp * C
    amp = 10.0 ** r.uniform(-6, 1, n) * np.where(r.random(n) < 0.1, 0, 1)
    b0 = abs(m / (q * dt))
    B = r.normal(size=(3, n)) * amp * b0
    E = r.normal(size=(3, n)) * 10.0 ** r.uniform(-6, 1, n) * b0 * C * np.where(r.random(n) < 0.1, 0, 1)
    if kind == "pureB":
        E[:] = 0
    elif kind == "pureE":
        B[:] = 0
    elif kind == "forcefree":
        E = -cross(u / np.sqrt(1 + (u ** 2).sum(0) / C ** 2), B)
    elif kind == "axis":
        k = r.integers(0, 3)
        msk = np.zeros((3, 1)); msk[k] = 1
        E, B = E * msk, B * np.roll(msk, r.integers(0, 3))
    elif kind == "rest":
        u[:] = 0
    elif kind == "none":
        E[:] = 0
        B[:] = 0
    return u, E, B


KINDS = ["any", "pureB", "pureE", "forcefree", "axis", "rest", "none"]
L = lambda a: [np.array(x, dtype=float) for x in a]


def body(c, d):
    K = kern.Kern(d, ["particle_pushers", "field_gathering"])
    nset = 2100 if chk.THOROUGH else 420
    sizes = [1, 2, 3, 7, 8, 9, 16, 33, 64, 130]
    for it in range(nset):
        r = chk.rng("C04", it)
        kind, n = KINDS[it % len(KINDS)], sizes[it % len(sizes)]
        q = float(r.choice([-1, 1, 2.5])) * QE
        m = float(r.choice([1, 1836.0])) * ME
        dt = 10.0 ** r.uniform(-18, -12)
        u, E, B = sets(r, n, kind, dt, q, m)
        ul, El, Bl = u.astype(LD), E.astype(LD), B.astype(LD)
        g0 = gam(ul)
        h = abs(q * dt / m)
        # per-particle scale: what enters the sums
        sc = np.sqrt(dot(u, u)) + h * np.sqrt(dot(E, E)) + 1e-300
        dat = lambda: {"kind": kind, "q": q, "m": m, "dt": dt, "u": u.tolist(), "E": E.tolist(), "B": B.tolist()}

        def cmp(nm, U, rf, tol, gi=None, scale=sc):
            U = np.array(U)
            e = np.max(np.abs(U - rf.astype(float)), axis=0) / scale
            c.count("particles_compared", n)
            i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
            c.close(e, np.zeros(n), tol, f"u/{nm}", f"{nm} set {kind}#{it} particle {i}: u={U[:, i]} expected {rf[:, i].astype(float)}", scale=1.0, data=dat)
            if gi is not None:
                gg = gam(U.astype(LD)).astype(float)
                c.close(gi * gg, np.ones(n), 1e-13, f"gaminv/{nm}", f"{nm} set {kind}#{it}: stored 1/gamma times gamma of the stored momentum", scale=1.0, data=dat)

        def case(nm):
            c.case(f"{nm} {kind} {it}", kind != "none", {"kernel": nm, "kind": kind, "n": n, "dt": dt} if it == 3 else None)
            chk.mark(c, f"{nm} it={it} kind={kind}")

        rb = boris(ul, El, Bl, q, m, dt)
        for nm in ("pxr_boris_push_u_3d", "pxr_boris_push_u_3d_block"):
            U, gi = L(u), np.full(n, np.nan)
            case(nm)
            K(nm, n, *U, gi, *L(E), *L(B), q, m, dt, *([int(r.choice([1, 3, 8, 64]))] if "block" in nm else []))
            cmp(nm, U, rb, 1e-12, gi)
            if kind == "pureB":
                c.close(np.sqrt(dot(np.array(U), np.array(U))), np.sqrt(dot(u, u)), 1e-12, f"modulus/{nm}", f"{nm}: |u| in a pure magnetic field #{it}", data=dat)
            if kind == "pureE":
                c.close(np.abs(np.array(U) - (u + q / m * dt * E)) / sc, np.zeros((3, n)), 1e-13, f"kick/{nm}", f"{nm}: pure electric kick #{it}", scale=1, data=dat)
        # the split steps
        U = L(u)
        case("pxr_epush_v")
        K("pxr_epush_v", n, *U, *L(E), q, m, dt)
        cmp("pxr_epush_v", U, ul + LD(q) * LD(dt) / LD(m) * El, 1e-13)
        U, gi = L(u), np.array(1 / g0, dtype=float)
        case("pxr_bpush_v")
        K("pxr_bpush_v", n, *U, gi, *L(B), q, m, dt)
        cmp("pxr_bpush_v", U, boris(ul, 0 * El, Bl, q, m, dt), 1e-12)
        gi = np.full(n, np.nan)
        case("pxr_set_gamma")
        K("pxr_set_gamma", n, *L(u), gi)
        cmp("pxr_set_gamma", L(u), ul, 1e-15, gi)
        # Vay: residual of u1 = u0 + q dt/m (E + (v0+v1)/2 x B)
        U, gi = L(u), np.array(1 / g0, dtype=float)
        case("pxr_ebcancelpush3d/0")
        K("pxr_ebcancelpush3d", n, *U, gi, *L(E), *L(B), q, m, dt, 0)
        U1 = np.array(U).astype(LD)
        k = LD(q) * LD(dt) / LD(m)
        tau = np.sqrt(dot(B, B)) * h / 2
        rhs = ul + k * (El + cross(ul / g0 + U1 / gam(U1), Bl) / 2)
        vsc = sc + tau * C * 2
        cmp("vay", np.array(U), rhs, 1e-11, None, vsc * (1 + tau))
        c.close(gi * gam(U1).astype(float), np.ones(n), 1e-9, "gaminv/vay", f"vay set {kind}#{it}: stored 1/gamma", scale=1.0, data=dat)
        if kind == "forcefree":
            cmp("vay_forcefree", np.array(U), ul, 1e-11, None, vsc * (1 + tau))
        # half pushes: first explicit, second the implicit end of the same scheme
        U, gi = L(u), np.array(1 / g0, dtype=float)
        case("pxr_ebcancelpush3d/1")
        K("pxr_ebcancelpush3d", n, *U, gi, *L(E), *L(B), q, m, dt, 1)
        cmp("vay_half1", U, ul + k / 2 * (El + cross(ul / g0, Bl)), 1e-12, gi, sc + tau * C)
        U, gi = L(u), np.array(1 / g0, dtype=float)
        case("pxr_ebcancelpush3d/2")
        K("pxr_ebcancelpush3d", n, *U, gi, *L(E), *L(B), q, m, dt, 2)
        U1 = np.array(U).astype(LD)
        cmp("vay_half2", np.array(U), ul + k / 2 * (El + cross(U1 / gam(U1), Bl)), 1e-11, None, vsc * (1 + tau))
        # radiation reaction
        Eo, Bo = E * r.uniform(0.5, 1.5, E.shape), B * r.uniform(0.5, 1.5, B.shape)
        for model in ("S09", "B08", "LL"):
            nm = f"pxr_boris_push_rr_{model}_u_3d"
            U, gi = L(u), np.full(n, np.nan)
            case(nm)
            K(nm, n, *U, gi, *(L(Eo) + L(Bo) if model == "LL" else []), *L(E), *L(B), q, m, dt)
            b, f = rr(model, ul, El, Bl, q, m, dt, Eo, Bo)
            imp = np.sqrt(dot(f - b, f - b)).astype(float)
            tsc = sc
            if model == "LL":  # cancelling terms
                g = gam((ul + b) / 2).astype(float)
                e2 = dot(E, E) + C ** 2 * dot(B, B)
                tsc = sc + abs(q ** 3 * dt / (6 * float(PI * EPS0) * m ** 2 * C ** 3)) * (4 * g * np.sqrt(e2) / dt + abs(q / m) / C * e2 * (2 + g ** 2) * 4)
            elif model == "B08":
                g = gam((ul + b) / 2).astype(float)
                e2 = dot(E, E) + C ** 2 * dot(B, B)
                tsc = sc + q ** 4 * dt / (6 * float(PI * EPS0) * m ** 3 * C ** 5) * g * e2 * np.sqrt(dot(u, u)) * 4
            else:
                tsc = sc + imp * gam(ul).astype(float)
            cmp(nm, U, f, 2e-11, gi, tsc)
            c.count("rr_impulse_resolved", int((imp > 1e-8 * tsc).sum()))
        # positions
        for nm, axes in (("pxr_pushxyz", (0, 1, 2)), ("pxr_pushxz", (0, 2)), ("pxr_push2dxz", (0, 2))):
            gi = np.array(1 / g0, dtype=float)
            x = r.normal(size=(3, n)) * 1e-5
            X = L(x)
            case(nm)
            if nm == "pxr_pushxz":
                K(nm, n, X[0], X[2], *[L(u)[i] for i in (0, 2)], gi, dt)
            elif nm == "pxr_push2dxz":
                K(nm, n, X[0], X[2], *L(u), gi, dt)
            else:
                K(nm, n, *X, *L(u), gi, dt)
            for a in axes:
                e = x[a] + u[a] * gi * dt
                c.close(X[a], e, 1e-14, f"x/{nm}", f"{nm} axis {a} set {kind}#{it}", scale=1e-5 * 10, data=dat)
    # fused gather and push against gather reference, Boris/Vay, position push
    for it in range(180 if chk.THOROUGH else 60):
        r = chk.rng("C04f", it)
        o = it % 3 + 1
        G = parts.Grid(r, 3)
        n = sizes[it % len(sizes)]
        P = parts.particles(r, G, n)
        fs = gfields(G, r, False, 3)
        q, m = float(r.choice([-1, 1])) * QE, ME
        for cc in COMP:
            fs[cc].v *= (1 if cc[0] == "e" else 1 / C) * m * C / (QE * G.dt) * 10.0 ** r.uniform(-3, 0) / np.max(np.abs(fs[cc].v))
        pusher = it // 3 % 2
        K.seti("particle_properties", "particle_pusher", pusher)
        K.setr("params", "dt", G.dt)
        nm = f"field_gathering_plus_particle_pusher_{o}_{o}_{o}"
        lv = int(r.choice([1, 3, 8, 64]))
        chk.mark(c, f"{nm} it={it}")
        X, U, gi = L([P["x"], P["y"], P["z"]]), L([P["ux"], P["uy"], P["uz"]]), P["gi"].copy()
        f6 = [np.zeros(n) for _ in range(6)]
        K(nm, n, *X, *U, gi, *f6, *[float(v) for v in G.x0], *[float(v) for v in G.d], float(G.dt), *[int(v) for v in G.n], *[int(v) for v in G.g],
          *[fs[cc].v for cc in COMP], q, m, lv, True)
        c.case(f"{nm} {pusher} {it}", True, {"kernel": nm, "pusher": pusher, "n": n} if it == 1 else None)
        rf, keep = [], np.ones(n, bool)
        for i, cc in enumerate(COMP):
            a, tie = gref(fs[cc], G, P, cc, (o, o, o), True, False)
            keep &= ~tie
            c.close(f6[i][~tie], a[~tie], 1e-11, f"fused_gather/{nm}", f"{nm} #{it} {cc}", scale=float(np.max(np.abs(fs[cc].v))))
        u0 = np.array([P["ux"], P["uy"], P["uz"]]).astype(LD)
        E, B = np.array(f6[:3]).astype(LD), np.array(f6[3:]).astype(LD)
        U1 = np.array(U).astype(LD)
        sc = (np.sqrt(dot(u0, u0)) + abs(q / m * G.dt) * np.sqrt(dot(E, E)) + abs(q / m * G.dt) * C * np.sqrt(dot(B, B)) + 1e-300).astype(float)
        if pusher == 0:
            e = boris(u0, E, B, q, m, G.dt)
        else:
            e = u0 + LD(q) * LD(G.dt) / LD(m) * (E + cross(u0 / gam(u0) + U1 / gam(U1), B) / 2)
        c.close((np.max(np.abs(U1 - e), axis=0) / sc).astype(float), np.zeros(n), 1e-10, f"fused_u/{nm}", f"{nm} pusher {pusher} #{it}", scale=1.0)
        c.close(gi * gam(U1).astype(float), np.ones(n), 1e-9, f"fused_gaminv/{nm}", f"{nm} #{it}", scale=1.0)
        for a in range(3):
            c.close(X[a], P["xyz"[a]] + np.array(U[a]) * gi * G.dt, 1e-12, f"fused_x/{nm}", f"{nm} #{it} axis {a}", scale=float(np.max(np.abs(G.x0)) + G.d[a] * 20))
    # kinetic energy of a particle list
    for it in range(50):
        r = chk.rng("C04k", it)
        n = int(r.integers(1, 200))
        g = 1 + 10.0 ** r.uniform(-6, 4, n)
        out = np.zeros(1)
        K("compute_kin_energy_vector", n, 1 / g, ME, out, 1.0)
        c.case(f"kin {it}")
        c.close(out[0], np.sum(g - 1) * ME * C ** 2, 1e-8, "kin/vector", f"kinetic energy #{it}")
    c.extra["kernel_calls"] = K.n


if __name__ == "__main__":
    chk.run("C04", RULE, body, assumptions=["gamma stored on entry consistent with the momentum (the scheme's precondition)", "fused kernels only with the reduced order, the only one they implement"])
