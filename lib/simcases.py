"""Random but valid simulation configurations, injected states, and parallel execution of runs."""
import os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import sim
C = sim.C


def split(n, p):
    """cells per process along an axis must be at least this (guards), see Cfg"""
    return n // p


class Cfg:
    """one configuration; .deck() renders it, .variant(**) changes some keywords"""
    def __init__(self, r, dim=3, maxproc=8, o=None, ng=None, plain=False, **force):
        self.dim = dim
        while True:
            p = [int(x) for x in r.integers(1, 4, 3)]
            if dim == 2:
                p[1] = 1
            if np.prod(p) <= maxproc:
                break
        if plain:
            p = [1, 1, 1]
        self.o = int(r.integers(1, 4)) if o is None else o
        ng = int(r.integers(max(3, self.o + 1), 6)) if ng is None else ng
        mloc = max(ng + 1, 5)
        tiles = [int(r.integers(1, 3)), int(r.integers(1, 3)) if dim == 3 else 1, int(r.integers(1, 4))]
        # a process's (cells + 1) / tiles must reach 4, or the program falls back to one tile
        cells = [int(r.integers(max(mloc, 4 * t) * q, max(mloc, 4 * t) * q + 5)) for q, t in zip(p, tiles)]
        if dim == 2:
            cells[1] = 4
        self.cells = cells
        self.d = [float(1e-6 * x) for x in r.uniform(0.6, 1.6, 3)]
        self.lo = [float(-x * d) for x, d in zip(r.uniform(0, 20, 3), self.d)]
        k = dict(nprocx=p[0], nprocy=p[1], nprocz=p[2], topology=int(r.choice([0, 0, 1, 2])), nx=cells[0] + 1, ny=cells[1] + 1, nz=cells[2] + 1,
                 lo=self.lo, d=self.d, dim=dim, ntilex=tiles[0], ntiley=tiles[1], ntilez=tiles[2],
                 ng=ng, njg=ng, o=self.o, nsteps=4, partcom=int(r.integers(0, 3)), mpicom=int(r.integers(0, 2)), mpibuf=int(r.choice([200, 5000])),
                 sort=0, dtcoef=float(r.uniform(0.4, 0.95)), species=2)
        k.update(force)
        self.k = k

    def variant(self, **kw):
        c = object.__new__(Cfg)
        c.__dict__.update(self.__dict__)
        c.k = {**self.k, **kw}
        return c

    def deck(self):
        return sim.Deck(**self.k)

    @property
    def nproc(self):
        return self.k["nprocx"] * self.k["nprocy"] * self.k["nprocz"]

    @property
    def axes(self):
        return [0, 2] if self.dim == 2 else [0, 1, 2]

    def hi(self, a):
        return self.lo[a] + self.cells[a] * self.d[a]

    def name(self):
        k = self.k
        return (f"{self.dim}D proc {k['nprocx']}x{k['nprocy']}x{k['nprocz']} topo{k['topology']} tiles {k['ntilex']}x{k['ntiley']}x{k['ntilez']} "
                f"cells {self.cells} ng {k['ng']} o {self.o} partcom {k['partcom']} mpicom {k['mpicom']} depo {k['currdepo'] if 'currdepo' in k else 0}")


def particles(r, cfg, n, w0, umax=3.0, npid=3, slow=False, wscale=1e6, ties=True):
    """(n, 6+npid): positions inside the box with process/tile/cell borders over-represented, unique weights"""
    P = np.zeros((n, 6 + npid))
    for a in range(3):
        lo, d, m = cfg.lo[a], cfg.d[a], cfg.cells[a]
        t = r.uniform(0, m, n)
        k = r.random(n)
        t = np.where(k < 0.1, np.floor(t), np.where(k < 0.2, np.floor(t) + 0.5, np.where(k < 0.25, np.floor(t) + 1e-9, np.where(k < 0.3, np.floor(t) + 1 - 1e-9, t))))
        t = np.where(k > 0.95, r.uniform(0, 0.3, n), np.where(k > 0.9, m - r.uniform(0, 0.3, n), t))
        if not ties:        # nothing closer than 1e-8 cells to a node or half node, where low-order interpolation jumps
            g = 2 * t - np.round(2 * t)
            t = t + np.where(np.abs(g) < 2e-8, np.where(r.random(n) < 0.5, 1e-8, -1e-8), 0)
        P[:, a] = lo + np.clip(t, 1e-8, m - 1e-8) * d
    if cfg.dim == 2:
        P[:, 1] = 0.0
    u = r.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    u *= (10.0 ** r.uniform(-2, np.log10(umax), n))[:, None]
    u[r.random(n) < 0.05] = 0
    P[:, 3:6] = u * C * (1e-3 if slow else 1)
    P[:, 6] = wscale * (1 + (w0 + np.arange(n)) * 1e-6)      # unique weights: the identity of a particle
    if npid > 1:
        P[:, 7:] = r.normal(size=(n, npid - 1))
    return P


def randfields(r, cfg, amp=1e9, names=("ex", "ey", "ez", "bx", "by", "bz"), smooth=False):
    n = [cfg.cells[0], cfg.cells[1] if cfg.dim == 3 else 1, cfg.cells[2]]
    out = {}
    for nm in names:
        a = r.normal(size=n)
        out[nm] = a * amp / (C if nm[0] == "b" else 1)
    return out


def pool(jobs, width=4):
    """jobs: callables; run side by side, results in order"""
    with ThreadPoolExecutor(width) as ex:
        return list(ex.map(lambda f: f(), jobs))
