"""Particle and grid generators for the kernel checks."""
import numpy as np
C = 299792458.0


class Grid:
    def __init__(self, r, dim, gmin=4, gmax=7, same_guard=True, dtmax=1.0):
        self.dim = dim
        self.n = r.integers(4, 11, 3)
        self.g = r.integers(gmin, gmax + 1, 3)
        self.d = 10.0 ** r.uniform(-7, -4) * r.uniform(0.4, 2.5, 3)
        self.x0 = r.uniform(-50, 50, 3) * self.d
        if r.random() < 0.25:
            self.x0[:] = 0.0
        self.dt = r.uniform(0.2, dtmax) * self.d[[0, 2] if dim == 2 else [0, 1, 2]].min() / C
        if dim == 2:
            self.ax = [0, 2]
        else:
            self.ax = [0, 1, 2]

    def fshape(self, g=None, n=None):
        g = self.g if g is None else g
        n = self.n if n is None else n
        return tuple(int(n[a] + 1 + 2 * g[a]) for a in self.ax)

    def new(self, fill=0.0):
        return np.full(self.fshape(), fill, order="F")


def particles(r, G, npart, vmax=1.0, margin=-0.5):
    """positions in a tile, half a cell around its nodes [x0-d/2, x0+n*d+d/2], with nodes, half nodes, borders over-represented; |v|<c*vmax"""
    P = {}
    for a, nm in enumerate("xyz"):
        t = r.uniform(margin, G.n[a] - margin, npart)
        k = r.random(npart)
        ti = np.where(k < 0.06, np.round(t), np.where(k < 0.12, np.minimum(np.floor(t) + 0.5, G.n[a] - margin), t))
        ti = np.where((k > 0.12) & (k < 0.15), margin, np.where((k > 0.15) & (k < 0.18), G.n[a] - margin, ti))
        ti = np.where((k > 0.18) & (k < 0.2), np.floor(t) + 1e-13, np.where((k > 0.2) & (k < 0.22), np.floor(t) + 0.5 - 1e-13, ti))
        P[nm] = G.x0[a] + np.clip(ti, margin, G.n[a] - margin) * G.d[a]
    sp = np.where(r.random(npart) < 0.1, 0.0, 10.0 ** r.uniform(-3, 1.5, npart))  # |u|/c
    dirn = r.normal(size=(3, npart))
    dirn *= np.where(r.random((3, npart)) < 0.15, 0.0, 1.0)
    nn = np.linalg.norm(dirn, axis=0)
    dirn = np.where(nn > 0, dirn / np.where(nn > 0, nn, 1), 0)
    u = dirn * sp * C * vmax
    P["ux"], P["uy"], P["uz"] = [np.ascontiguousarray(u[i]) for i in range(3)]
    P["gi"] = 1 / np.sqrt(1 + (u ** 2).sum(0) / C ** 2)
    P["w"] = 10.0 ** r.uniform(0, 3, npart)
    if r.random() < 0.3 and npart:
        P["w"][r.integers(npart)] = 0.0
    return P
