#!/usr/bin/env python3
"""C08: finite-difference Maxwell kernels against numpy stencils with exact weights; the update, the discrete
divergences, the leapfrog energy and the dispersion monitored inside simulations."""
import os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import chk, fbuild, kern, sim, simcases

RULE = ("seeded random fields, sizes, bounds, update ranges, orders (2..16 per axis), staggered and nodal; one case is one kernel call or one monitored field "
        "update of a simulation; distinct by (kernel, order, range) or (configuration, step); non-trivial when the fields are not zero")
C, MU0 = sim.C, 4e-7 * np.pi
I = lambda v: np.array([int(x) for x in v], np.int64)


def weights(n, nodal):
    """exact weights w_l, l=1..n/2, of f' ~ sum w_l (f(+s_l)-f(-s_l)) with s_l = l (nodal) or l-1/2: exact on odd polynomials up to degree n-1"""
    m = n // 2
    s = [Fraction(l) if nodal else Fraction(2 * l - 1, 2) for l in range(1, m + 1)]
    # sum_l 2 w_l s_l^(2q+1) = delta_q0
    A = [[2 * s[l] ** (2 * q + 1) for l in range(m)] + [Fraction(1 if q == 0 else 0)] for q in range(m)]
    for i in range(m):
        p = next(j for j in range(i, m) if A[j][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for j in range(m):
            if j != i and A[j][i] != 0:
                A[j] = [x - A[j][i] * y for x, y in zip(A[j], A[i])]
    return np.array([float(A[i][m]) for i in range(m)])


def sh(a, ax, k):
    """a shifted: result[j] = a[j+k] (periodic; the caller keeps away from the edges or is periodic)"""
    return np.roll(a, -k, ax)


def dfwd(a, ax, w, ist):
    """sum_i w_i (a(j+i) - a(j-i+ist))"""
    return sum(w[i] * (sh(a, ax, i + 1) - sh(a, ax, -i - 1 + ist)) for i in range(len(w)))


def dbwd(a, ax, w, ist):
    """sum_i w_i (a(j+i-ist) - a(j-i))"""
    return sum(w[i] * (sh(a, ax, i + 1 - ist) - sh(a, ax, -i - 1)) for i in range(len(w)))


def curlE(E, D):
    return [-D(E[2], 1) + D(E[1], 2), D(E[2], 0) - D(E[0], 2), -D(E[1], 0) + D(E[0], 1)]      # dB/dt = -curl E


def curlB(B, D):
    return [D(B[2], 1) - D(B[1], 2), -D(B[2], 0) + D(B[0], 2), D(B[1], 0) - D(B[0], 1)]


def ckc(dts, dim):
    """the Cole-Karkkainen-Cowan derivative (PRST-AB 16, 041303), per axis: weight of the transverse offsets"""
    r = (dts / dts.max()) ** 2
    out = {}
    if dim == 2:
        r = np.array([r[0], 0, r[1]])
        out[0] = {(0, 0, 0): 1 - r[2] / 4, (0, 0, 1): r[2] / 8, (0, 0, -1): r[2] / 8}
        out[2] = {(0, 0, 0): 1 - r[0] / 4, (1, 0, 0): r[0] / 8, (-1, 0, 0): r[0] / 8}
        return out
    S = r[0] * r[1] + r[1] * r[2] + r[2] * r[0]
    beta = (1 - r[0] * r[1] * r[2] / S) / 8
    for a in range(3):
        b, c_ = [(1, 2), (0, 2), (0, 1)][a]
        g = r[b] * r[c_] * (1 / 16 - r[b] * r[c_] / S / 8)
        w = {}
        for p in (-1, 0, 1):
            for q in (-1, 0, 1):
                o = [0, 0, 0]
                o[b], o[c_] = p, q
                w[tuple(o)] = g if p and q else r[b] * beta if p else r[c_] * beta if q else 1 - 2 * beta * (r[b] + r[c_]) - 4 * g
        out[a] = w
    return out


def ranged(K, c, r, it):
    """kernels with explicit update ranges and array bounds; every component has its own bounds"""
    dim = 3 if it % 2 else 2
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    N = r.integers(6, 11, 3)
    lo0 = r.integers(-4, 4, 3)
    dts = 10.0 ** r.uniform(-2, 0, 3) if it % 3 else np.full(3, 0.3)
    mudt = float(r.normal())
    nm9 = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "f"]
    arr, bounds, big = {}, {}, {}
    pad = 4
    for n in nm9:
        s = r.integers(0, 3, (2, 3)) if it % 4 else np.zeros((2, 3), int)
        big[n] = r.normal(size=[N[a] + 2 * pad if a in ax else 1 for a in range(3)])
        lo = [int(pad - 1 - s[0, a]) if a in ax else 0 for a in range(3)]
        hi = [int(pad + N[a] + 1 + s[1, a]) if a in ax else 1 for a in range(3)]
        bounds[n] = (lo, hi)      # python range in big; Fortran index = index - pad + lo0
    # update ranges inside [pad, pad+N)
    rg = {}
    for q in range(3):
        l = [int(r.integers(0, 3)) if it % 5 else 0 for _ in range(3)]
        h = [int(N[a] - 1 - (r.integers(0, 3) if it % 5 else 0)) for a in range(3)]
        rg[q] = (l, h)
    if it % 11 == 10:        # an empty range
        rg[1][1][0] = rg[1][0][0] - 1
    W = [np.array([1.0])]
    D2 = {"bvec": lambda a, x: dts[x] * dfwd(a, x, [1.0], 1) if x in ax else 0 * a,
          "evec": lambda a, x: dts[x] * dbwd(a, x, [1.0], 1) if x in ax else 0 * a}
    ck = ckc(dts[ax], dim)

    def Dck(a, x):
        if x not in ax:
            return 0 * a
        t = sum(w * np.roll(a, [-o for o in off], (0, 1, 2)) for off, w in ck[x].items())
        return dts[x] * (sh(t, x, 1) - t)
    D2["bvec_ckc"] = D2["evec_f_ckc"] = Dck
    D2["evec_f"] = D2["bvec"]
    for kind in ("bvec", "evec", "bvec_ckc", "evec_f", "evec_f_ckc"):
        nm = f"pxrpush_em{dim}d_{kind}"
        if not K.has(nm + "_"):
            c.ok(False, f"missing/{nm}", f"{nm} is not in the library")
            continue
        E, B, J = [[big[g + q] for q in "xyz"] for g in "ebj"]
        D = D2[kind]
        if kind.startswith("bvec"):
            use, upd = nm9[:6], ["bx", "by", "bz"]
            new = [b + q for b, q in zip(B, curlE(E, D))]
        elif kind == "evec":
            use, upd = nm9[:9], ["ex", "ey", "ez"]
            new = [e + q - mudt * j for e, q, j in zip(E, curlB(B, D), J)]
        else:
            use, upd = nm9[:3] + ["f"], ["ex", "ey", "ez"]
            new = [e + D(big["f"], x) for x, e in enumerate(E)]
            if dim == 2:
                new[1] = E[1]
        T = np.int32 if kind == "bvec_ckc" and dim == 3 and _int4(nm) else np.int64
        A = lambda v: np.array([v[a] - pad + lo0[a] for a in ax], T)
        args, view = [], {}
        for q in range(3):
            l, h = rg[q]
            args += [A([x + pad for x in l]), A([x + pad for x in h])]
        for n in use:
            lo, hi = bounds[n]
            v = np.asfortranarray(big[n][tuple(slice(p, q) for p, q in zip(lo, hi))])
            if dim == 2:
                v = np.asfortranarray(v[:, 0, :])
            view[n] = v
            args += [v, A(lo), A([h - 1 for h in hi])]
        if kind == "evec":
            args.append(mudt)
        args += [float(x) for x in dts]
        keep = {n: v.copy() for n, v in view.items()}
        chk.mark(c, f"{nm} it={it}")
        K(nm, *args)
        tag = f"{nm} #{it} N {[int(x) for x in N]}"
        c.case(tag + str(rg), True, {"kernel": nm, "sizes": [int(x) for x in N], "ranges": {k: v for k, v in rg.items()}} if it < 3 else None)
        for n in use:
            lo, hi = bounds[n]
            ref = keep[n].copy()
            if n in upd:
                q = "xyz".index(n[1])
                if not (dim == 2 and kind.startswith("evec_f") and q == 1):
                    l, h = rg[q]
                    s_ref = tuple(slice(l[a] + pad - lo[a], h[a] + 1 + pad - lo[a]) for a in ax)
                    s_new = tuple(slice(l[a] + pad, h[a] + 1 + pad) if a in ax else 0 for a in range(3))
                    if all(h[a] >= l[a] for a in ax):
                        ref[s_ref] = new[q][s_new]
            c.count("nodes_compared", ref.size)
            c.close(view[n], ref, 1e-13, f"stencil/{nm}", f"{tag} {n}", scale=10.0)


def _int4(nm):
    """the 3D CKC kernel declares its bounds with the default integer kind; read that from the source, both are valid interfaces"""
    import re
    t = open(fbuild.SRC + "/field_solvers/Maxwell/karkkainen_solver/karkkainen.F90").read().lower()
    m = re.search(r"subroutine\s+" + nm + r"\b(.*?)end subroutine", t, re.S)
    body = re.sub(r"#ifdef warpx.*?#else", "", m.group(1), flags=re.S)
    return not re.search(r"integer\s*\(\s*idp\s*\)\s*(,[^:\n]*)?(::)?\s*&?\s*xlo", body)


def reguard(a, g, gj):
    """the same grid values in an array with gj guard cells: dropped, or NaN where a has none"""
    out = np.full([s - 2 * p + 2 * q for s, p, q in zip(a.shape, g, gj)], np.nan, order="F")
    m = [min(p, q) for p, q in zip(g, gj)]
    out[tuple(slice(q - k, s - q + k) for s, q, k in zip(out.shape, gj, m))] = a[tuple(slice(p - k, s - p + k) for s, p, k in zip(a.shape, g, m))]
    return out


def norder(K, c, r, it, ws):
    dim = 3 if it % 2 else 2
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    od = [int(2 * r.integers(1, 7)) for _ in range(3)]
    if it % 3 == 0:
        od = [od[0]] * 3
    nodal = bool(it // 2 % 2)
    ist = 0 if nodal else 1
    ns = [int(x) for x in r.integers(0, 3, 3)] if it % 4 == 3 else [0] * 3
    g = [o // 2 + s + int(r.integers(1, 3)) for o, s in zip(od, ns)]
    n = [int(x) for x in r.integers(3, 9, 3)]
    if dim == 2:
        n[1], g[1], ns[1] = 1, 0, 0
    d = 10.0 ** r.uniform(-2, 0, 3)
    w = [ws[o, nodal] * float(q) for o, q in zip(od, d)]
    F = {k: r.normal(size=[n[a] + 1 + 2 * g[a] for a in range(3)]) for k in ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz")}
    F = {k: np.asfortranarray(v) for k, v in F.items()}
    mudt = float(r.normal())
    jg = r.integers(0, 8, 3)
    E, B, J = [[F[q + x].copy() for x in "xyz"] for q in "ebj"]
    if dim == 2:
        DE = lambda a, x: dbwd(a, x, w[x], ist) if x != 1 else 0 * a
        DB = lambda a, x: dfwd(a, x, w[x], ist) if x != 1 else 0 * a
    else:
        DE = lambda a, x: dbwd(a, x, w[x], ist)
        DB = lambda a, x: dfwd(a, x, w[x], ist)
    for kind in ("evec", "bvec"):
        nm = f"pxrpush_em{dim}d_{kind}_norder"
        G = {k: v.copy(order="F") for k, v in F.items()}
        gj = [ns[a] + int(q) if a in ax else 0 for a, q in enumerate(jg)]       # J has guard cells of its own
        tail = [*n, *od, *g, *(gj if kind == "evec" else []), *ns, nodal]
        chk.mark(c, f"{nm} it={it}")
        if kind == "evec":
            K(nm, *[G[k] for k in ("ex", "ey", "ez", "bx", "by", "bz")], *[reguard(G[k], g, gj) for k in ("jx", "jy", "jz")], mudt, *w, *tail)
            ref = {f"e{x}": e + q - mudt * j for x, e, q, j in zip("xyz", E, curlB(B, DE), J)}
        else:
            K(nm, *[G[k] for k in ("ex", "ey", "ez", "bx", "by", "bz")], *w, *tail)
            ref = {f"b{x}": b + q for x, b, q in zip("xyz", B, curlE(E, DB))}
        sl = tuple(slice(g[a] - ns[a], g[a] + n[a] + 1 + ns[a]) for a in range(3))
        if dim == 2:
            sl = (sl[0], slice(0, 1), sl[2])
        tag = f"{nm} #{it} orders {od} {'nodal' if nodal else 'staggered'}"
        c.case(tag, True, {"kernel": nm, "orders": od, "nodal": nodal, "guards": g, "extra": ns} if it < 6 else None)
        for k in G:
            want = F[k].copy()
            if k in ref:
                want[sl] = ref[k][sl]
            c.count("nodes_compared", want.size)
            c.close(G[k], want, 1e-13, f"stencil/{nm}", f"{tag} {k}", scale=10.0)
        if dim == 3:        # the copies used by the external interface: interior only, staggered the other way round
            nm = f"__link_external_tools_MOD_{kind}3d_push_norder"
            if nodal or not K.has(nm):
                continue
            G = {k: v.copy(order="F") for k, v in F.items()}
            if kind == "evec":
                K(nm, *[G[k] for k in ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz")], mudt, *w, *n, *od, *g)
                ref = {f"e{x}": e + q - mudt * j for x, e, q, j in zip("xyz", E, curlB(B, DB), J)}
            else:
                K(nm, *[G[k] for k in ("ex", "ey", "ez", "bx", "by", "bz")], *w, *n, *od, *g)
                ref = {f"b{x}": b + q for x, b, q in zip("xyz", B, curlE(E, DE))}
            sl = tuple(slice(g[a], g[a] + n[a] + 1) for a in range(3))
            for k in G:
                want = ref.get(k, F[k])
                s = sl if k in ref else (slice(None),) * 3
                c.close(G[k][s], want[s], 1e-13, f"stencil/{nm}", f"{tag} external {k}", scale=10.0)


def fdweights(K, c, ws):
    for n in range(2, 34, 2):
        for nodal in (False, True):
            ref = ws.get((n, nodal))
            if ref is None:
                ref = weights(n, nodal)
            a = np.zeros(n // 2)
            K("fd_weights", a, n, nodal)
            c.case(f"fd_weights {n} {nodal}", True, {"order": n, "nodal": nodal, "weights": a[:3].tolist()} if n == 6 else None)
            c.close(a, ref, 1e-9 if n > 20 else 1e-11, "weights/fd_weights", f"FD_weights order {n} {'nodal' if nodal else 'staggered'}")
            a = np.zeros(n // 2)
            K("__gpstd_solver_MOD_fd_weights_hvincenti", n, a, not nodal)
            c.close(a, ref, 1e-10, "weights/fd_weights_hvincenti", f"FD_weights_hvincenti order {n} {'nodal' if nodal else 'staggered'}")
            c.case(f"fd_weights_hvincenti {n} {nodal}")


def gfields(e, names):
    return [e.global_field(n) for n in names]


def insitu(c, cfg, run, ws, vacuum):
    k = cfg.k
    dt = run.info[0]["dt"]
    od = [run.info[0]["norder" + a] for a in "xyz"]
    dd = [run.info[0]["d" + a] for a in "xyz"]
    ax = cfg.axes
    DB = lambda s: (lambda a, x: s / dd[x] * dfwd(a, x, ws[od[x], False], 1) if x in ax else 0 * a)
    DE = lambda s: (lambda a, x: s / dd[x] * dbwd(a, x, ws[od[x], False], 1) if x in ax else 0 * a)
    EN, BN, JN = [[q + x for x in "xyz"] for q in "ebj"]
    key = f"{cfg.dim}D"
    bp0, bp1, ep0, ep1 = [run.all(l) for l in ("bp0", "bp1", "ep0", "ep1")]
    ns = k["nsteps"]
    c.ok(len(bp0) == len(bp1) == 2 * ns and len(ep0) == len(ep1) == ns, f"events/{key}", f"{cfg.name()}: {len(bp0)} magnetic and {len(ep0)} electric updates in {ns} steps", {"config": k})
    c.count("updates_observed", len(bp0) + len(ep0))
    dat = {"config": k}
    # documented time step: dtcoef times the Courant limit of the Yee scheme
    cfl = k["dtcoef"] / (C * np.sqrt(sum(1 / dd[a] ** 2 for a in ax)))
    c.close(dt, cfl, 1e-12, f"timestep/{key}", f"{cfg.name()}: time step", data=dat)
    for a, b in zip(bp0, bp1):
        E, B0, B1 = gfields(a, EN), gfields(a, BN), gfields(b, BN)
        sc = max(np.abs(x).max() for x in B0) + max(np.abs(x).max() for x in E) / C
        tag = f"{cfg.name()} orders {od} step {a.it} magnetic update"
        c.case(tag + str(id(a)), sc > 0)
        for x, q in enumerate(curlE(E, DB(0.5 * dt))):
            c.close(B1[x], B0[x] + q, 1e-13, f"update_b/{key}", f"{tag} b{'xyz'[x]}", scale=sc, data=dat)
        # divergence lives with forward differences on B, its change vanishes identically
        div = sum(dd[0] * DB(1.0)(B1[x] - B0[x], x) for x in ax)
        c.close(div, 0 * div, 1e-12, f"div_b/{key}", f"{tag}: change of div B", scale=sc, data=dat)
    for a, b in zip(ep0, ep1):
        E0, E1, B, J = gfields(a, EN), gfields(b, EN), gfields(a, BN), gfields(a, JN)
        sc = max(np.abs(x).max() for x in E0) + C * max(np.abs(x).max() for x in B)
        tag = f"{cfg.name()} orders {od} step {a.it} electric update"
        c.case(tag, sc > 0, {"config": cfg.name(), "orders": od, "max_e": sc, "max_j": max(float(np.abs(x).max()) for x in J)} if a.it == 0 else None)
        for x, q in enumerate(curlB(B, DE(C * C * dt))):
            c.close(E1[x], E0[x] + q - MU0 * C * C * dt * J[x], 1e-12, f"update_e/{key}", f"{tag} e{'xyz'[x]}", scale=sc, data=dat)
        div = sum(dd[0] * DE(1.0)(E1[x] - E0[x] + MU0 * C * C * dt * J[x], x) for x in ax)
        c.close(div, 0 * div, 1e-11, f"div_e/{key}", f"{tag}: change of div E minus the current's", scale=sc, data=dat)
    if not vacuum:
        return
    # leapfrog invariant and dispersion: E^n, B at the half steps
    Bh = [gfields(b, BN) for b in bp1[0::2]]         # B^{n+1/2}
    En = [gfields(a, EN) for a in ep0]                # E^n before the update of step n
    inv = []
    for i in range(1, ns):
        inv.append(sum((e * e).sum() for e in En[i]) + C * C * sum((p * q).sum() for p, q in zip(Bh[i - 1], Bh[i])))
    inv = np.array(inv)
    c.close(inv, inv[0], 1e-11, f"energy/{key}", f"{cfg.name()} orders {od}: leapfrog energy over {ns} steps", data=dat)
    N = En[0][0].shape
    kk = []
    for x in range(3):
        th = 2 * np.pi * np.fft.fftfreq(N[x])
        w = ws[od[x], False]
        kx = sum(2 * w[l] * np.sin((l + 0.5) * th) for l in range(len(w))) / dd[x] if x in ax else 0 * th
        kk.append(kx.reshape([-1 if y == x else 1 for y in range(3)]))
    K2 = sum(q * q for q in kk) * np.ones(N)
    for i in range(1, ns - 1):
        fe = [[np.fft.fftn(e) for e in En[j]] for j in (i - 1, i, i + 1)]
        # the transverse part obeys f(n+1) - 2 f(n) + f(n-1) = -(c dt)^2 K^2 f(n), i.e. 4 sin^2(w dt/2) = (c dt K)^2; the longitudinal part is constant.
        # E components sit half a cell off their node: shift to common phase
        ph = [np.exp(-1j * np.pi * np.fft.fftfreq(N[x])).reshape([-1 if y == x else 1 for y in range(3)]) if x in ax else 1.0 for x in range(3)]
        fe = [[f * p for f, p in zip(q, ph)] for q in fe]
        with np.errstate(all="ignore"):
            lon = [sum(kk[x] * q[x] for x in range(3)) / np.where(K2 > 0, K2, 1) for q in fe]
        tr = [[q[x] - kk[x] * l for x in range(3)] for q, l in zip(fe, lon)]
        sc = max(np.abs(t).max() for t in tr[1])
        # even grid sizes: at the Nyquist wave number the phase is ambiguous, leave those modes out
        ok = np.ones(N, bool)
        for x in range(3):
            if N[x] % 2 == 0 and x in ax:
                s = [slice(None)] * 3
                s[x] = N[x] // 2
                ok[tuple(s)] = False
        for x in range(3):
            lhs = tr[2][x] - 2 * tr[1][x] + tr[0][x] + (C * dt) ** 2 * K2 * tr[1][x]
            c.close(np.abs(lhs)[ok], 0 * K2[ok], 1e-11, f"dispersion/{key}", f"{cfg.name()} orders {od} step {i}: discrete dispersion of e{'xyz'[x]}", scale=sc, data=dat)
        c.count("modes_checked", int(ok.sum()))


def body(c, d):
    ws = {(n, b): weights(n, b) for n in range(2, 18, 2) for b in (False, True)}
    K = kern.Kern(d + "/k", ["field_solvers", "submain.F90", "init_external.F90"])
    fdweights(K, c, ws)
    for it in range(600 if chk.THOROUGH else 150):
        ranged(K, c, chk.rng("C08a", it), it)
    for it in range(600 if chk.THOROUGH else 150):
        norder(K, c, chk.rng("C08b", it), it, ws)
    exe = fbuild.build_sim("fomp", d + "/b")
    todo = []
    for i in range(80 if chk.THOROUGH else 24):
        r = chk.rng("C08s", i)
        dim = 3 if i % 3 else 2
        vac = i % 2 == 0
        od = [2 * int(r.integers(1, 5)) for _ in range(3)] if i % 4 else [2] * 3
        ng = max(4, max(od) // 2 + 1)
        cfg = simcases.Cfg(r, dim, ng=ng, nsteps=(6 if vac else 3), nord=od, dtcoef=float(r.uniform(0.2, 0.6)), sort=0)
        if i % 3 != 2:      # J with guard cells of its own
            cfg = cfg.variant(njg=[int(q) for q in r.integers(max(3, cfg.o + 1), ng + 1, 3)])
        todo.append((i, cfg, vac))

    def job(i, cfg, vac):
        def go():
            r = chk.rng("C08i", i)
            os.makedirs(f"{d}/r{i}", exist_ok=True)
            pt = [simcases.particles(r, cfg, 0 if vac else 200, 0.2 * s) for s in range(2)]
            sim.inject(f"{d}/r{i}/inject.bin", simcases.randfields(r, cfg, amp=1e6), pt)
            return sim.run(exe, f"{d}/r{i}", cfg.deck(), mon="bp0:2 bp1:2 ep0:6 ep1:6", timeout=120)
        return go
    for (i, cfg, vac), run in zip(todo, simcases.pool([job(*t) for t in todo], 6)):
        if not c.ok(run.rc == 0, f"run/{cfg.dim}D", lambda: f"{cfg.name()}: the run ended with {run.rc}: {run.tail()}", {"config": cfg.k}):
            continue
        insitu(c, cfg, run, ws, vac)
    c.extra["runs"] = len(todo)


if __name__ == "__main__":
    chk.run("C08", RULE, body, assumptions=["guard cells at least half the order"])
