"""Runs of the monitored simulation program: decks, initial states, MPI, and the recorded events."""
import os, re, subprocess, sys, shutil, struct
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fbuild

ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
       "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": "false",
       "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_io": "romio321", "MALLOC_PERTURB_": "129", "OMP_NUM_THREADS": "1"}
QE, ME, EPS0, C = 1.602176565e-19, 9.10938291e-31, 8.854187817620389e-12, 299792458.0

INT = ("rank nproc nprocx nprocy nprocz x_coords y_coords z_coords c_dim nx ny nz nx_global ny_global nz_global nx0 ny0 nz0 "
       "nxguards nyguards nzguards nxjguards nyjguards nzjguards ntilex ntiley ntilez nspecies npid nox noy noz norderx nordery norderz nsteps").split()
DBL = ("xmin xmax ymin ymax zmin zmax dx dy dz x_min_local x_max_local y_min_local y_max_local z_min_local z_max_local dt xmin_part xmax_part "
       "ymin_part ymax_part zmin_part zmax_part x_grid_min x_grid_max z_grid_min z_grid_max x_min_local_part").split()
PART = ["x", "y", "z", "ux", "uy", "uz", "gi"]
PF = ["ex", "ey", "ez", "bx", "by", "bz"]
TI = "species ix iy iz np npmax npid withf nxmin nymin nzmin ncx ncy ncz".split()
TB = "xmin xmax ymin ymax zmin zmax gxmin gxmax gymin gymax gzmin gzmax".split()


class Deck:
    """sections as ordered (name, [(key, value)...]); species etc. may repeat"""
    def __init__(self, **kw):
        k = dict(nprocx=1, nprocy=1, nprocz=1, topology=0, nx=13, ny=13, nz=13, dim=3, lo=(-5e-6, -6e-6, -7e-6), d=(1e-6, 1e-6, 1e-6),
                 ntilex=1, ntiley=1, ntilez=1, ng=4, njg=4, norder=2, o=1, currdepo=0, rhodepo=0, fieldgathe=0, partcom=0, fgpp=0, pusher=0,
                 mpicom=0, lvc=8, lvr=8, lvg=16, mpibuf=2000, nsteps=3, sort=0, dtcoef=0.7, species=2, nppcell=1, out="", extra_main="", extra_solver="",
                 temporal="", tail="", period=1, extra_cpu="", sortp=None, plasma=True, nlab=1e24, pdistr=1, vth=0.0, nord=None, splist=None, g0=1.0, sortdx=1.0, sortsh=-0.5)
        bad = set(kw) - set(k)
        assert not bad, bad
        k.update(kw)
        self.k = k

    def text(self):
        k = self.k
        n = [k["nx"], k["ny"], k["nz"]]
        hi = [l + (m - 1) * d for l, m, d in zip(k["lo"], n, k["d"])]
        ng = k["ng"] if isinstance(k["ng"], (tuple, list)) else [k["ng"]] * 3
        njg = k["njg"] if isinstance(k["njg"], (tuple, list)) else [k["njg"]] * 3
        o = k["o"] if isinstance(k["o"], (tuple, list)) else [k["o"]] * 3
        no = k["nord"] or [k["norder"]] * 3
        r = lambda v: f"{v:.17e}".replace("e", "d")
        L = ["section::cpusplit", *[f"nprocx = {k['nprocx']}", f"nprocy = {k['nprocy']}", f"nprocz = {k['nprocz']}", f"topology = {k['topology']}",
             f"mpicom_curr = {k['mpicom']}", f"lvec_curr_depo = {k['lvc']}", f"lvec_charge_depo = {k['lvr']}", f"lvec_fieldgathe = {k['lvg']}",
             f"mpi_buf_size = {k['mpibuf']}"], *k["extra_cpu"].splitlines(), "end::cpusplit",
             "section::main", f"nx = {n[0]}", f"ny = {n[1]}", f"nz = {n[2]}"]
        for a in range(3):
            L += [f"{'xyz'[a]}min = {r(k['lo'][a])}", f"{'xyz'[a]}max = {r(hi[a])}"]
        L += [f"nsteps = {k['nsteps']}", f"dtcoef = {r(k['dtcoef'])}", f"ntilex = {k['ntilex']}", f"ntiley = {k['ntiley']}", f"ntilez = {k['ntilez']}"]
        L += [f"nguards{'xyz'[a]} = {ng[a]}" for a in range(3)] + [f"njguards{'xyz'[a]} = {njg[a]}" for a in range(3)]
        if k["dim"] == 2:
            L += ["c_dim = 2"]
        L += k["extra_main"].splitlines() + ["end::main", "section::solver"]
        L += [f"norder{'xyz'[a]} = {no[a]}" for a in range(3)] + [f"no{'xyz'[a]} = {o[a]}" for a in range(3)]
        L += [f"currdepo = {k['currdepo']}", f"fieldgathe = {k['fieldgathe']}", f"partcom = {k['partcom']}", f"rhodepo = {k['rhodepo']}",
              f"fg_p_pp_separated = {k['fgpp']}", f"particle_pusher = {k['pusher']}"] 
        L += k["extra_solver"].splitlines() + ["end::solver"]
        L += ["section::sorting", f"activation = {k['sort']}", *[f"d{a}={k['sortdx']}" for a in "xyz"], *[f"shift{a}={k['sortsh']}" for a in "xyz"], "end::sorting"]
        L += ["section::plasma", f"nlab={r(k['nlab'])}", f"gamma0={r(k['g0'])}", f"pdistr={k['pdistr']}", "end::plasma"]
        sp = k["splist"]
        if sp is None:
            sp = [dict(name="electron", mass=1.0, charge=-1), dict(name="proton", mass=1836.0, charge=1), dict(name="muon", mass=200.0, charge=-1)][:k["species"]]
        for s in sp:
            q = dict(nppcell=k["nppcell"], vth_x=k["vth"], vth_y=k["vth"], vth_z=k["vth"], vdrift_x=0.0, vdrift_y=0.0, vdrift_z=0.0,
                     sorting_period=k["period"], sorting_start=0)
            for a in range(3):
                q["xyz"[a] + "_min"], q["xyz"[a] + "_max"] = k["lo"][a], hi[a]
            q.update(s)
            L += ["section::species"] + [f"{a} = {r(b) if isinstance(b, float) else b}" for a, b in q.items()] + ["end::species"]
        if k["out"]:
            L += ["section::output", *k["out"].splitlines(), "end::output"]
        if k["temporal"]:
            L += ["section::temporal", *k["temporal"].splitlines(), "end::temporal"]
        L += k["tail"].splitlines()
        return "\n".join(" " + l if not l.startswith(("section::", "end::")) else l for l in L) + "\n"


def inject(path, fields=None, parts=None):
    """fields: name -> global array; parts: list over species of (np, 6+npid) arrays x y z ux uy uz w ..."""
    with open(path, "wb") as f:
        fields = fields or {}
        f.write(struct.pack("<q", len(fields)))
        for nm, a in fields.items():
            f.write(nm.ljust(8).encode())
            f.write(struct.pack("<qqq", *a.shape))
            f.write(np.asfortranarray(a, dtype="<f8").tobytes(order="F"))
        parts = parts or []
        f.write(struct.pack("<q", len(parts)))
        for p in parts:
            f.write(struct.pack("<qq", p.shape[0], p.shape[1] - 6))
            f.write(np.asfortranarray(p, dtype="<f8").tobytes(order="F"))


class RunError(Exception):
    pass


def run(exe, d, deck, nproc=None, mon="", env=None, timeout=300, args=(), prefix=(), ok_rc=(0,), parse=True):
    """runs in a fresh directory d; returns Run"""
    shutil.rmtree(d, ignore_errors=True) if os.path.exists(d) and not os.path.exists(d + "/inject.bin") else None
    os.makedirs(d + "/RESULTS", exist_ok=True)
    os.makedirs(d + "/mon", exist_ok=True)
    text = deck if isinstance(deck, str) else deck.text()
    if nproc is None:
        nproc = deck.k["nprocx"] * deck.k["nprocy"] * deck.k["nprocz"]
    with open(d + "/input_file.pixr", "w") as f:
        f.write(text)
    e = {**os.environ, **ENV, "PXR_MON": mon, "PXR_MON_DIR": d + "/mon", **(env or {})}
    p = subprocess.run(["timeout", "-k", "5", str(timeout), "mpirun", "-np", str(nproc), *prefix, exe, *args], cwd=d, env=e, capture_output=True, text=True, errors="replace")
    r = Run(d, p.returncode, p.stdout, p.stderr, nproc)
    if parse and p.returncode == 0:
        r.parse()
    return r


class Run:
    def __init__(self, d, rc, out, err, nproc):
        self.d, self.rc, self.out, self.err, self.nproc = d, rc, out, err, nproc
        self.ranks = []

    def tail(self):
        return (self.out[-600:] + " ... " + self.err[-1200:]).strip()

    def parse(self):
        self.ranks = [parse(f"{self.d}/mon/mon.{i}.bin") for i in range(self.nproc)]
        self.info = [r[0] for r in self.ranks]
        n = {len(r[1]) for r in self.ranks}
        if len(n) != 1:
            raise RunError(f"ranks recorded different numbers of events {n}")
        self.events = []
        for i in range(n.pop()):
            evs = [r[1][i] for r in self.ranks]
            if len({(e.label, e.it) for e in evs}) != 1:
                raise RunError(f"ranks disagree about event {i}: {[(e.label, e.it) for e in evs]}")
            self.events.append(Event(evs, self))

    def at(self, label, it=None, nth=0):
        c = [e for e in self.events if e.label == label and (it is None or e.it == it)]
        return c[nth] if len(c) > nth else None

    def all(self, label):
        return [e for e in self.events if e.label == label]


class REv:
    def __init__(self, label, it):
        self.label, self.it = label, it
        self.tiles, self.fields, self.vecs, self.species, self.info = [], {}, {}, {}, None


def parse(path):
    b = open(path, "rb").read()
    p, info, evs = 0, None, []
    n = len(b)

    def ints(k):
        nonlocal p
        v = struct.unpack_from(f"<{k}q", b, p)
        p += 8 * k
        return v

    def dbl(k):
        nonlocal p
        v = np.frombuffer(b, "<f8", k, p)
        p += 8 * k
        return v
    while p < n:
        m, kind, it = ints(3)
        if m != 7310579:
            raise RunError(f"bad record in {path} at {p}")
        lab = b[p:p + 16].decode().strip()
        p += 16
        if kind == 0:
            d = dict(zip(INT, ints(len(INT))))
            d.update(zip(DBL, dbl(len(DBL))))
            if not evs:
                info = d
            else:
                evs[-1].info = d
        elif kind == 9:
            evs.append(REv(lab, it))
        elif kind == 2:
            lb, ub = ints(3), ints(3)
            sh = tuple(u - l + 1 for l, u in zip(lb, ub))
            evs[-1].fields[lab] = (lb, dbl(int(np.prod(sh))).reshape(sh, order="F"))
        elif kind == 3:
            (lb,), (ub,) = ints(1), ints(1)
            evs[-1].vecs[lab] = (lb, dbl(ub - lb + 1))
        elif kind == 4:
            s, = ints(1)
            q, ms = dbl(2)
            npart, ant = ints(2)
            evs[-1].species[s] = dict(charge=q, mass=ms, npart=npart, antenna=bool(ant))
        elif kind == 1:
            t = dict(zip(TI, ints(len(TI))))
            t.update(zip(TB, dbl(len(TB))))
            k, a = t["np"], {}
            if k > 0:
                for nm in PART:
                    a[nm] = dbl(k)
                a["pid"] = dbl(k * t["npid"]).reshape((k, t["npid"]), order="F")
                if t["withf"]:
                    for nm in PF:
                        a[nm] = dbl(k)
            t["a"] = a
            evs[-1].tiles.append(t)
    return info, evs


class Event:
    """one event over all ranks"""
    def __init__(self, evs, run):
        self.evs, self.run = evs, run
        self.label, self.it = evs[0].label, evs[0].it

    def particles(self, species, extra=False):
        """all particles of a species: dict of arrays, plus rank and tile of each"""
        cols = {k: [] for k in PART}
        pid, rank, tile, fl = [], [], [], {k: [] for k in PF}
        for r, e in enumerate(self.evs):
            for t in e.tiles:
                if t["species"] != species or t["np"] <= 0:
                    continue
                for k in PART:
                    cols[k].append(t["a"][k])
                pid.append(t["a"]["pid"])
                rank.append(np.full(t["np"], r))
                tile.append(np.tile([t["ix"], t["iy"], t["iz"]], (t["np"], 1)))
                if t["withf"]:
                    for k in PF:
                        fl[k].append(t["a"][k])
        cat = lambda l, s=(0,): np.concatenate(l) if l else np.zeros(s)
        out = {k: cat(v) for k, v in cols.items()}
        npid = self.run.info[0]["npid"]
        out["pid"] = cat(pid, (0, npid))
        out["w"] = out["pid"][:, 0] if len(out["pid"]) else np.zeros(0)
        out["rank"], out["tile"] = cat(rank).astype(int), cat(tile, (0, 3)).astype(int)
        if fl["ex"]:
            for k in PF:
                out["f" + k] = cat(fl[k])
        return out

    def global_field(self, name, tol=None):
        """global node array from the interiors (nodes 0..n-1 of each rank); also the largest disagreement
        between ranks that hold the same node (upper shared nodes included, periodic wrap)"""
        I = self.run.info[0]
        n = [int(I["nx_global"]), int(I["ny_global"]) if I["c_dim"] == 3 else 1, int(I["nz_global"])]
        g = np.full(n, np.nan)
        for r, e in enumerate(self.evs):
            q = self.run.info[r]
            lb, a = e.fields[name]
            nl = [q["nx"], q["ny"] if q["c_dim"] == 3 else 1, q["nz"]]
            s0 = [q["nx0"], q["ny0"] if q["c_dim"] == 3 else 0, q["nz0"]]
            v = a[tuple(slice(-l, -l + m) for l, m in zip(lb, nl))]
            g[tuple(slice(s, s + m) for s, m in zip(s0, nl))] = v
        return g

    def windows(self, name):
        """per rank: array with all guards, and the global indices of its first element"""
        out = []
        for r, e in enumerate(self.evs):
            q = self.run.info[r]
            lb, a = e.fields[name]
            out.append((a, [lb[0] + q["nx0"], lb[1] + (q["ny0"] if q["c_dim"] == 3 else 0), lb[2] + q["nz0"]]))
        return out
