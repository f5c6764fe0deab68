"""Independent numpy reference of B-spline deposition and gather (no /repo code)."""
import numpy as np
from kern import shape


def outer_sum(Ss, val):
    if len(Ss) == 2:
        return np.einsum("pi,pk,p->ik", Ss[0], Ss[1], val, optimize=True)
    return np.einsum("pi,pj,pk,p->ijk", Ss[0], Ss[1], Ss[2], val, optimize=True)


def gridpos(G, P, shift=0.0, stag=(0, 0, 0)):
    """positions in grid units at time shifted back by shift*dt, minus the staggering"""
    out = []
    for a in G.ax:
        v = P["u" + "xyz"[a]] * P["gi"]
        out.append((P["xyz"[a]] - G.x0[a] - shift * G.dt * v) / G.d[a] - stag[a])
    return out


def bounds(G, a):
    return -int(G.g[a]), int(G.n[a] + G.g[a])


def rho(G, P, q, order, shift=0.0):
    xs = gridpos(G, P, shift)
    Ss = [shape(order[a], x, *bounds(G, a)) for a, x in zip(G.ax, xs)]
    vol = np.prod(G.d[G.ax])
    return outer_sum(Ss, q * P["w"] / vol)


def jdirect(G, P, q, order, comp, nodal):
    stag = [0, 0, 0]
    if not nodal and comp in G.ax:
        stag[comp] = 0.5
    xs = gridpos(G, P, 0.5, stag)
    Ss = [shape(order[a], x, *bounds(G, a)) for a, x in zip(G.ax, xs)]
    v = P["u" + "xyz"[comp]] * P["gi"]
    return outer_sum(Ss, q * P["w"] * v / np.prod(G.d[G.ax]))


def divj(G, J):
    """discrete divergence at nodes of currents staggered half a cell up; first layer: flux in only"""
    out = 0
    for ia, a in enumerate(G.ax):
        j = J[a]
        lo = np.zeros_like(j)
        sl = [slice(None)] * j.ndim
        sl2 = list(sl)
        sl[ia], sl2[ia] = slice(1, None), slice(0, -1)
        lo[tuple(sl)] = j[tuple(sl2)]
        out = out + (j - lo) / G.d[a]
    return out


class Arr:
    """one grid array with its own guards and valid counts, as the generic kernels take them"""
    def __init__(self, G, r=None, stag=(0, 0, 0), vary=True, extra=None):
        self.G, self.ax = G, G.ax
        self.ng = np.array([G.g[a] for a in G.ax], dtype=np.int64)
        self.nv = np.array([G.n[a] + 1 for a in G.ax], dtype=np.int64)
        if vary and r is not None:
            self.ng = self.ng + r.integers(0, 3, len(self.ax))
            for i, a in enumerate(self.ax):
                if stag[a] and r.random() < 0.5:
                    self.nv[i] -= 1
        self.v = np.zeros(tuple(int(x) for x in self.nv + 2 * self.ng), order="F")

    def args(self):
        return [self.v, self.ng, self.nv]

    def range(self, i):
        return -int(self.ng[i]), int(self.nv[i] + self.ng[i] - 1)

    def on_grid(self, extra=3):
        """embedded into the index range -g-extra .. n+g+extra of the grid"""
        G = self.G
        out = np.zeros(tuple(int(G.n[a] + 1 + 2 * (G.g[a] + extra)) for a in self.ax))
        sl = []
        for i, a in enumerate(self.ax):
            lo = -int(self.ng[i]) + int(G.g[a]) + extra
            sl.append(slice(lo, lo + self.v.shape[i]))
        out[tuple(sl)] = self.v
        return out


def wide(G, extra=3):
    import copy
    W = copy.copy(G)
    W.g = G.g + extra
    return W


def jdirect_on(A, G, P, q, order, comp, nodal):
    stag = [0, 0, 0]
    if not nodal and comp in G.ax:
        stag[comp] = 0.5
    xs = gridpos(G, P, 0.5, stag)
    Ss = [shape(order[a], x, *A.range(i)) for i, (a, x) in enumerate(zip(G.ax, xs))]
    v = P["u" + "xyz"[comp]] * P["gi"]
    return outer_sum(Ss, q * P["w"] * v / np.prod(G.d[G.ax]))
