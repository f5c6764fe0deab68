#!/usr/bin/env python3
"""C17: whole simulations under AddressSanitizer, UBSan and array-bounds checks, with floating-point traps over poisoned memory, and under memcheck."""
import importlib, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from concurrent.futures import ThreadPoolExecutor
import chk, fbuild, sim, simcases
C14 = importlib.import_module("C14")

RULE = ("seeded MPI runs that combine dimension, process grid, topology, tiles, unequal guard widths, orders, all deposition/gather/pusher/communication choices, vector lengths, plasma distributions, sorting, "
        "FDTD and spectral solvers, absorbing layers, laser antenna, every output; each configuration runs in instrumented builds of the whole program; distinct by (configuration, build)")
SAN = re.compile(r"Fortran runtime error:[^\n]*|ERROR: AddressSanitizer: [\w-]+[^\n]*|[^\s]+:\d+:\d+: runtime error:[^\n]*|SUMMARY: \w+Sanitizer:[^\n]*|SIGFPE[^\n]*|SIGSEGV[^\n]*")
WHERE = re.compile(r"[Aa]t (?:line (\d+) of file )?(\S*/src/\S+?)(?::(\d+))?\s|in \w+ (\S*/src/\S+?):(\d+)")


def config(i):
    r = chk.rng("C17", i)
    cfg, w = C14.config(i, r)
    k = dict(pusher=int(r.integers(0, 6)), sort=int(r.integers(0, 2)), partcom=int(r.integers(0, 3)), mpicom=int(r.integers(0, 3)), fgpp=int(r.integers(0, 3)),
             currdepo=int(r.integers(0, 6)), rhodepo=int(r.integers(0, 2)), fieldgathe=int(r.integers(0, 6)), lvc=int(r.choice([1, 3, 8, 16])), lvr=int(r.choice([1, 4, 8])), lvg=int(r.choice([1, 5, 16, 512])),
             nppcell=int(r.integers(1, 4)), pdistr=int(r.integers(1, 4)), vth=0.1, period=int(r.integers(1, 4)), nsteps=4)
    feat = []
    extra, tail = "", cfg.k["tail"]
    if i % 4 == 1:
        extra = "l_spectral = .TRUE."
        feat.append("spectral")
        k["norder"], k["nord"] = int(r.choice([2, 4, 8])), None
        ng = cfg.k["ng"]
        k["ng"] = k["njg"] = max(ng) if isinstance(ng, list) else ng
        if i % 8 == 5:
            feat.append("absorbing")
            extra += "\n" + "\n".join(f"absorbing_bcs_{a} = .TRUE." for a in "xyz" if r.random() < 0.6) + "\nnx_pml = 3\nny_pml = 3\nnz_pml = 3"
    elif i % 3 == 0:        # finite differences of higher, unequal orders within the guard cells
        ng = cfg.k["ng"] if isinstance(cfg.k["ng"], list) else [cfg.k["ng"]] * 3
        k["nord"] = [2 * int(r.integers(1, min(4, g) + 1)) for g in ng]
    if i % 5 == 2:
        feat.append("antenna")
        f = [cfg.lo[a] + q * cfg.cells[a] * cfg.d[a] for a, q in enumerate((0.5, 0.5, r.uniform(0.1, 0.9)))]
        if cfg.dim == 2:
            f[1] = 0.0
        tail += ("\nsection::antenna\nvector_x = 0.\nvector_y = 0.\nvector_z = 1.\n" + "\n".join(f"spot_{a} = {v:.9e}" for a, v in zip("xyz", f)) +
                 f"\nlambda_laser = 0.8e-6\npvec_x = {r.normal():.6f}\npvec_y = {r.normal():.6f}\npvec_z = 0.\nlaser_ctau = 3e-6\nt_peak = 1e-14\nlaser_a_1 = 1.0\nlaser_a_2 = {r.uniform():.4f}\nlaser_w0 = 4e-6\n"
                 f"polangle = {r.uniform(0, 3):.4f}\ntemporal_order = {2 * int(r.integers(1, 3))}\nwindow = {int(r.integers(0, 2))}\nend::antenna")
    k["tail"], k["extra_solver"] = tail, extra
    return cfg.variant(**k), feat


def reports(text):
    """(what, where) of each report of a tool"""
    out = []
    for m in SAN.finditer(text):
        w = WHERE.search(text, max(0, m.start() - 200) if "runtime error: " in m.group(0) and m.group(0).startswith("Fortran") else m.start())
        place = ""
        if w:
            f, l = (w.group(2), w.group(1) or w.group(3)) if w.group(2) else (w.group(4), w.group(5))
            place = f"{f.split('/src/')[-1]}:{l}"
        out.append((m.group(0).strip(), place))
    return out


MC = re.compile(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Source and dest|Mismatched free|Argument|Process terminating)[^\n]*\n((?:==\d+==    (?:at|by)[^\n]*\n)+)")


def memcheck(text, files):
    """memcheck reports whose innermost frame with debug information lies in the code under test"""
    out = []
    for m in MC.finditer(text):
        fr = re.findall(r"(?:at|by) 0x\w+: (\S+) \(([\w.]+):(\d+)\)", m.group(2))
        if fr and fr[0][1] in files:
            out.append((m.group(1), f"{fr[0][0]} {fr[0][1]}:{fr[0][2]}"))
    return out


def body(c, d):
    T = chk.THOROUGH
    with ThreadPoolExecutor(3) as ex:
        exes = dict(zip(("asan", "nan", "vg"), ex.map(lambda v: fbuild.build_sim(v, f"{d}/{v}"), ("asan", "nan", "vg"))))
    files = {os.path.basename(s) for s in fbuild.fsources()}
    env = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1", "OMP_NUM_THREADS": "1"}
    jobs = [(i, v) for i in range(400 if T else 80) for v in ("asan", "nan")] + [(1000 + i, "vg") for i in range(40 if T else 8)]

    def job(i, v):
        def go():
            cfg, feat = config(i)
            if v == "vg" and cfg.nproc > 2:
                cfg = cfg.variant(nprocx=1, nprocy=1, nprocz=min(2, cfg.k["nprocz"]))
            w = f"{d}/{v}_{i}"
            r = sim.run(exes[v], w, cfg.deck(), mon="out0:1" if v == "asan" else "", timeout=400, env=env, parse=v == "asan",
                        prefix=("valgrind", "-q", "--error-limit=no", "--num-callers=14") if v == "vg" else ())
            try:
                n = sum(1 for e in r.all("out0")) if v == "asan" else 0
            except Exception:       # a run that was stopped by a tool leaves no complete record
                n = 0
            return cfg, feat, r.rc, r.out + r.err, n, r.tail()
        return go
    for (i, v), (cfg, feat, rc, text, n, tail) in zip(jobs, simcases.pool([job(*j) for j in jobs], 5)):
        tag = f"configuration {i} [{v}] {cfg.name()} {' '.join(feat)}"
        dat = {"config": cfg.k, "build": v, "deck": cfg.deck().text()}
        c.case(f"{i} {v}", True, {"build": v, "config": cfg.name(), "features": feat, "steps_seen": n} if i < 3 else None)
        c.count("runs_" + v)
        for f in feat + [f"{cfg.dim}D"]:
            c.count(f"{f}_runs")
        c.count("steps_observed_by_the_monitor", n)
        rep = memcheck(text, files) if v == "vg" else reports(text)
        for what, place in rep[:20]:
            c.ok(False, f"{v}/{place.split(':')[0] or 'unknown'}", f"{tag}: {what} {place}", dat)
        c.ok(not rep, f"reports/{v}", f"{tag}: {len(rep)} reports", dat)
        if not rep:
            c.ok(rc == 0, f"run/{v}", f"{tag}: the run ended with {rc}: {tail}", dat)
            if v == "asan":
                c.ok(n > 0, f"events/{v}", f"{tag}: nothing observed", dat)


if __name__ == "__main__":
    chk.run("C17", RULE, body, assumptions=["decks within the documented ranges; spectral runs with equal guards for J and E", "leaks at exit are not judged", "the FFTW and MPI libraries are not instrumented"])
