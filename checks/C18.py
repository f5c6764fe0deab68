#!/usr/bin/env python3
"""C18: the whole program under ThreadSanitizer with an OpenMP runtime whose only synchronisation is what OpenMP promises and whose schedules are
chosen, plus the same states with the real runtime and its dynamic schedules; fields and particles compared with one thread. The QED tables too."""
import importlib, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import chk, fbuild, qed, sim, simcases
C07 = importlib.import_module("C07")

RULE = ("seeded initial states with tile grids up to 7 tiles per axis, one or two processes, two species; each run by one thread and by 2 to 7 threads under seeded assignments of iterations to threads with "
        "injected delays (ThreadSanitizer build) and under libgomp's dynamic, guided and static schedules (optimised build); one case is one threaded run; non-trivial when more than one thread got iterations")
TSAN = "halt_on_error=1 detect_deadlocks=0 exitcode=66 history_size=4 ignore_noninstrumented_modules=1"


def races(text):
    """(first /repo frame of each side) of the data races one side of which runs code of the repository"""
    out = []
    for b in re.split(r"={18}\n", text):
        if "WARNING: ThreadSanitizer: data race" not in b:
            continue
        sides, cur = [], None
        for l in b.splitlines():
            if re.match(r"\s+(Previous |Atomic |Previous atomic )?(read|write) of size", l, re.I):
                cur = []
                sides.append(cur)
            elif not l.strip():
                cur = None
            elif cur is not None:
                m = re.match(r"\s+#\d+ (.+?) (\S+/src/\S+?:\d+)", l)
                if m and m.group(2).startswith(chk.REPO):
                    cur.append(f"{m.group(1).split('_MOD_')[-1]} {m.group(2).split('/src/', 1)[1]}")
        if any(sides):
            out.append(" <-> ".join(s[0] if s else "?" for s in sides))
    return out


def case(i):
    r = chk.rng("C18", i)
    dim = 3 if i % 3 else 2
    spectral = i % 6 == 4
    o = int(r.integers(1, 4))
    ng = int(r.integers(o + 2, 6))
    cfg = simcases.Cfg(r, dim, o=o, ng=ng, nsteps=8, pusher=int(r.integers(0, 2)), dtcoef=float(r.uniform(0.4, 0.9)))
    p = [1, 1, 1]
    if not spectral and i % 2:
        p[int(r.choice([0, 2] if dim == 2 else [0, 1, 2]))] = 2
    t = [int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(2, 5))] if dim == 3 else [int(r.integers(1, 6)), 1, int(r.integers(2, 8))]
    if i % 4 == 3:      # long in one direction: as many colours and neighbours as possible
        t = [int(r.integers(4, 8)), 1, int(r.integers(1, 3))] if i % 8 == 3 else [1, int(r.integers(4, 7)) if dim == 3 else 1, int(r.integers(4, 7))]
    cells = [max(q * 4 * n, q * (ng + 1)) + int(r.integers(0, 4)) for q, n in zip(p, t)]      # tiles have at least 4 nodes
    if dim == 2:
        cells[1] = 4
    cfg.cells = cells
    kw = dict(nprocx=p[0], nprocy=p[1], nprocz=p[2], topology=0, ntilex=t[0], ntiley=t[1], ntilez=t[2], nx=cells[0] + 1, ny=cells[1] + 1, nz=cells[2] + 1, o=[o] * 3,
              norder=8 if spectral else int(r.choice([2, 4])), extra_solver="l_spectral = .TRUE." if spectral else "", partcom=i % 3, mpicom=int(r.integers(0, 2)), mpibuf=3000,
              sort=int(r.integers(0, 2)), period=int(r.integers(1, 4)), fgpp=int(r.integers(0, 3)), rhodepo=int(r.integers(0, 3)), lvc=8, lvr=8, lvg=int(r.choice([4, 64])))
    kw["currdepo"] = int(r.choice([0, 1, 2, 3, 4, 5, 6])) if dim == 3 else int(r.integers(0, 3))
    kw["fieldgathe"] = int(r.integers(0, 7)) if dim == 3 else int(r.integers(0, 4))
    q = cfg.variant(**kw)
    F = simcases.randfields(r, q, amp=1e10)
    P = [simcases.particles(r, q, 500, 1, umax=5, ties=False), simcases.particles(r, q, 400, 50000, umax=5, ties=False)]
    return q, F, P, r


def simulations(c, d, exes):
    T = chk.THOROUGH
    jobs, meta = [], []
    for i in range(150 if T else 30):
        q, F, P, r = case(i)
        vs = [("tsan", 1, {}), ("tsan", int(r.integers(2, 5)), {"PXR_SCHED": str(1 + i), "PXR_DELAY": "1"}), ("tsan", int(r.integers(4, 8)), {"PXR_SCHED": str(100 + i), "PXR_DELAY": str(i % 2)}),
              ("fomp", int(r.choice([2, 3, 4, 7])), {"OMP_SCHEDULE": str(r.choice(["dynamic,1", "guided", "static,1", "static"]))})]
        if T:
            vs += [("tsan", 5, {"PXR_SCHED": str(1000 + i), "PXR_DELAY": "1"}), ("fomp", 8, {"OMP_SCHEDULE": "dynamic,1"})]
        for v, (b, n, env) in enumerate(vs):
            def f(i=i, v=v, b=b, n=n, env=env, q=q, F=F, P=P):
                rd = f"{d}/r{i}_{v}"
                os.makedirs(rd)
                sim.inject(rd + "/inject.bin", F, P)
                return sim.run(exes[b], rd, q.deck(), mon="after:7", timeout=400,
                               env={"OMP_NUM_THREADS": str(n), "TSAN_OPTIONS": TSAN, "PXR_OMP_REPORT": rd, "PMIX_MCA_gds": "hash", **env})
            jobs.append(f)
            meta.append((i, v, b, n, env, q))
    base = None
    for (i, v, b, n, env, q), run in zip(meta, simcases.pool(jobs, 3)):
        k = q.k
        key = f"{q.dim}D_partcom{k['partcom']}_cd{k['currdepo']}_fgpp{k['fgpp']}"
        tag = f"case {i}.{v} [{b}] {n} threads {env} {q.name()} sep {k['fgpp']} sort {k['sort']} {k['extra_solver']}"
        dat = {"config": k, "cells": q.cells, "env": env, "threads": n}
        rep = races(run.out + run.err)
        for x in sorted(set(rep))[:6]:
            c.ok(False, f"race/{x.split()[-1].split(':')[0]}", f"{tag}: data race {x}", dat)
        c.ok(not rep, f"races/{b}", f"{tag}: {len(rep)} data races", dat)
        if not c.ok(run.rc == 0, f"run/{key}", lambda: f"{tag}: the run ended with {run.rc}: {run.tail()}", dat):
            base = None if v == 0 else base
            continue
        if v == 0:
            base = C07.state(run)
            c.ok(all(np.isfinite(x).all() for x in base[0].values()), f"finite/{key}", f"{tag}: fields not finite", dat)
            continue
        if base is None:
            continue
        C07.compare(c, q, base, run, key, tag, dat)
        used = 0
        if b == "tsan":
            for f in os.listdir(run.d):
                if f.startswith("omp."):
                    reg, inner, it, th = map(int, open(f"{run.d}/{f}").read().split())
                    c.count("parallel_regions", reg)
                    c.count("nested_parallel_regions", inner)
                    c.count("scheduled_iterations", it)
                    used = max(used, th)
        c.case(tag, used > 1 or b == "fomp", {"variant": tag, "threads_with_iterations": used})
        c.count(f"threaded_runs_{b}")


def tables(c, d):
    T = chk.THOROUGH
    jobs = [dict(name="threads", real=r, units=u, extra=["-O2", *e], tag=t) for r, u in qed.VARIANTS for e, t in (([], "_o2"), (["-fsanitize=thread", f"{d}/gomp.o"], "_tsan"))]
    subprocess.run(["gcc", "-c", "-O1", "-g", "-fsanitize=thread", chk.VERIF + "/harness/gomp.c", "-o", d + "/gomp.o"], check=True)
    exes = dict(zip([(j["real"], j["units"], j["tag"]) for j in jobs], qed.build_all(d, jobs)))
    for (r, u, t), exe in exes.items():
        for s in range(20 if T else 4):
            for mode in "sn":
                ref = None
                for n in (1, 2, 4, 7):
                    for rep in range(1 if n == 1 or t == "_tsan" else 5):
                        w = f"{d}/tab"
                        os.makedirs(w, exist_ok=True)
                        try:        # milliseconds of work
                            run = qed.run(exe, [chk.SEED * 1000 + s, mode], cwd=w, threads=n, leaks=0, timeout=120, env={"TSAN_OPTIONS": TSAN, "PXR_SCHED": str(s)})
                        except subprocess.TimeoutExpired:
                            c.ok(False, f"table_hang/{mode}", f"tables {r} {u}{t} seed {s} mode {mode}: {n} threads do not finish")
                            return
                        tag = f"tables {r} {u}{t} seed {s} {'with' if mode == 's' else 'without'} a message stream, {n} threads"
                        for x in sorted(set(races(run.stderr))):
                            c.ok(False, f"table_race/{x.split()[-1].split(':')[0]}", f"{tag}: data race {x}")
                        if not c.ok(run.returncode == 0, f"table_run/{mode}", f"{tag}: ended with {run.returncode} {run.stderr[-300:]}"):
                            continue
                        if n == 1:
                            ref = run.stdout
                        else:
                            c.ok(run.stdout == ref, f"table_values/{mode}", f"{tag}: the table or the messages differ from one thread's:\n{run.stdout}\n{ref}")
                            c.count("threaded_tables", run.stdout.count("R bw ") + run.stdout.count("R qs "))
                            c.case(f"{r} {u} {t} {s} {mode} {n}", True)


def body(c, d):
    with ThreadPoolExecutor(3) as ex:
        f = [ex.submit(fbuild.build_sim, "tsan", d + "/bt", extra_csrc=[chk.VERIF + "/harness/gomp.c"]), ex.submit(fbuild.build_sim, "fomp", d + "/bf")]
        g = ex.submit(lambda: tables(c, d))
        exes = {"tsan": f[0].result(), "fomp": f[1].result()}
        g.result()
    simulations(c, d, exes)


if __name__ == "__main__":
    chk.run("C18", RULE, body, assumptions=["rounding differences between summation orders stay below 1e-9 of the field scale over 8 steps",
                                            "ThreadSanitizer sees the accesses of compiled Fortran and C++, not those inside MPI and FFTW",
                                            "the table integrals are replaced by cheap stand-ins while their threading is watched (their values: Q02, Q03)"])
