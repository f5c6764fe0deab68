#!/usr/bin/env python3
"""Builds /repo's Fortran sources (from the working tree) plus harness sources into a scratch
directory, with ninja, for one instrumentation variant.

  fbuild.build(variant, outdir, mains={"name": [harness sources]}) -> {"name": path}

Module dependencies are computed from the sources (USE/MODULE statements), so nothing depends on
file names or on the Makefile's order."""
import os, re, subprocess, sys

REPO = os.environ.get("PXR_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "-cpp -fallow-argument-mismatch -std=gnu -w -I/usr/include"
VARIANTS = {
    # what is shipped, minus -O3 (time); FFTW: the spectral solver is compiled in as well
    "opt":  "-O2 -ftree-vectorize -DFFTW=1",
    "prod": "-O3 -ftree-vectorize",
    "fast": "-O1 -DFFTW=1 -frecursive -finit-real=nan -finit-derived",
    "fomp": "-O1 -DFFTW=1 -fopenmp -finit-real=nan -finit-derived",
    "lib":  "-O1 -DFFTW=1 -DLIBRARY=1",
    "omp":  "-O2 -DFFTW=1 -fopenmp",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -DFFTW=1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fcheck=bounds,do,mem,pointer,recursion",
    "nan":  "-O1 -g -DFFTW=1 -finit-real=snan -ffpe-trap=invalid,zero,overflow -fcheck=bounds",
    "tsan": "-O1 -g -fno-omit-frame-pointer -DFFTW=1 -fopenmp -fsanitize=thread",
    "vg":   "-O1 -g -DFFTW=1",
}
LIBS = "-lfftw3_mpi -lfftw3_omp -lfftw3 -lm"
SKIP = ("multi_physics", "profiling")


def fsources(root=SRC):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in SKIP]
        out += [os.path.join(d, f) for f in files if f.endswith((".F90", ".f90"))]
    return sorted(out)


def scan(path):
    t = open(path, errors="replace").read().lower()
    mods = set(re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*(?:!.*)?$", t, re.M))
    uses = set(re.findall(r"^\s*use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)", t, re.M))
    return mods, uses


# init_kspace_3D.F90 with UBSan takes gigabytes and many minutes to compile: it keeps ASan only
PERFILE = {"asan": {"field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90": "-fno-sanitize=undefined -g0 -fcheck=no-bounds"}}


def _closure(srcs, info, where):
    todo, seen = list(srcs), set(srcs)
    while todo:
        s = todo.pop()
        for u in info[s][1]:
            d = where.get(u)
            if d and d not in seen:
                seen.add(d)
                todo.append(d)
    return sorted(seen)


def build_so(dirs, outdir, flags="-O1 -DFFTW=1", extra_src=(), extra_ld=""):
    """A shared library of the /repo Fortran files under any of `dirs` (relative to src) plus the modules
    they use; procedures elsewhere stay undefined (lazy binding)."""
    os.makedirs(outdir + "/mod", exist_ok=True)
    srcs = fsources()
    info = {s: scan(s) for s in srcs + list(extra_src)}
    where = {m: s for s in info for m in info[s][0]}
    want = [s for s in srcs if any(os.path.relpath(s, SRC).startswith(d) for d in dirs)] + list(extra_src)
    want = _closure(want, info, where)
    obj = {s: re.sub(r"\W", "_", os.path.relpath(s, SRC)).strip("_") + ".o" for s in want}
    san = " ".join(x for x in flags.split() if x.startswith("-fsanitize") or x == "-fopenmp")
    L = [f"flags = {COMMON} -fPIC {flags}",
         "rule fc", "  command = OMPI_FC=gfortran mpif90 $flags $xf -Jmod -c -o $out $in",
         "rule so", f"  command = OMPI_FC=gfortran mpif90 -shared -Wl,-z,lazy {san} -o $out $in {extra_ld} {LIBS}"]
    for s in want:
        deps = sorted({obj[where[u]] for u in info[s][1] if u in where and where[u] != s})
        L.append(f"build {obj[s]}: fc {s} | {' '.join(deps)}")
        if "address" in flags:
            xf = PERFILE["asan"].get(os.path.relpath(s, SRC))
            if xf:
                L.append("  xf = " + xf)
    L += ["build libpxr.so: so " + " ".join(sorted(obj.values())), ""]
    with open(outdir + "/build.ninja", "w") as f:
        f.write("\n".join(L))
    r = subprocess.run(["ninja", "-C", outdir, "-j", str(os.cpu_count() or 8), "libpxr.so"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("build failed:\n" + r.stdout[-4000:] + r.stderr[-2000:])
    return outdir + "/libpxr.so"


def build(variant, outdir, mains, exclude=("main.F90",), extra_flags="", extra_ld="", only=None, verbose=False,
          csrc=()):
    """mains: name -> list of harness sources (absolute; .F90 or .c).  All /repo objects are archived
    and linked with each.  Raises RuntimeError (with the log) when something does not compile."""
    os.makedirs(outdir, exist_ok=True)
    flags = f"{COMMON} {VARIANTS[variant]} {extra_flags}"
    srcs = [s for s in fsources() if os.path.relpath(s, SRC) not in exclude]
    if only:
        srcs = [s for s in srcs if only(os.path.relpath(s, SRC))]
    hsrc = sorted({s for v in mains.values() for s in v})
    info = {s: scan(s) for s in srcs + [h for h in hsrc if h.endswith(".F90")]}
    where = {m: s for s in info for m in info[s][0]}

    def obj(s):
        base = os.path.relpath(s, SRC if s.startswith(SRC + "/") else VERIF)
        return ("r/" if s.startswith(SRC + "/") else "h/") + re.sub(r"\W", "_", base) + ".o"
    san = " ".join(x for x in (VARIANTS[variant] + " " + extra_flags).split() if x.startswith("-fsanitize") or x == "-fopenmp")
    L = [f"flags = {flags}", f"cflags = -O1 -g {san if '-fsanitize=thread' in san or 'address' in san else ''} -w -Iinc",
         "rule fc", f"  command = OMPI_FC=gfortran mpif90 $flags $xf -Jmod -c -o $out $in",
         "rule cc", f"  command = OMPI_CC=gcc mpicc $cflags -c -o $out $in",
         "rule ar", "  command = rm -f $out && ar rcs $out $in",
         "rule ld", f"  command = OMPI_FC=gfortran mpif90 {san} -o $out $in {extra_ld} {LIBS}"]
    for s in info:
        deps = sorted({obj(where[u]) for u in info[s][1] if u in where and where[u] != s})
        L.append(f"build {obj(s)}: fc {s} | {' '.join(deps)}")
        xf = PERFILE.get(variant, {}).get(os.path.relpath(s, SRC))
        if xf:
            L.append("  xf = " + xf)
    for h in hsrc:
        if h.endswith(".c"):
            L.append(f"build {obj(h)}: cc {h}")
    L.append("build librepo.a: ar " + " ".join(obj(s) for s in srcs))
    for name, hs in mains.items():
        if not hs:
            continue
        L.append(f"build {name}: ld {' '.join(obj(h) for h in hs)} librepo.a")
    L.append("")
    os.makedirs(outdir + "/mod", exist_ok=True)
    with open(outdir + "/build.ninja", "w") as f:
        f.write("\n".join(L))
    r = subprocess.run(["ninja", "-C", outdir, "-j", str(os.cpu_count() or 8)] + list(mains), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("build failed:\n" + r.stdout[-4000:] + r.stderr[-2000:])
    return {n: os.path.join(outdir, n) for n in mains}


# phase routines of the time loop -> event label
PHASES = {"field_gathering_plus_particle_pusher": "push", "push_laser_particles": "laser", "particle_bcs": "pbc", "particle_bcs_2d": "pbc",
          "charge_bcs": "rbc", "pxrdepose_rho_on_grid": "rho", "pxr_particle_sorting": "sort",
          "pxrdepose_currents_on_grid_jxjyjz": "dep", "pxrdepose_currents_on_grid_jxjyjz_2d": "dep", "current_bcs": "jbc",
          "push_bfield": "bp", "push_bfield_2d": "bp", "push_efield": "ep", "push_efield_2d": "ep", "bfield_bcs": "bbc", "efield_bcs": "ebc",
          "push_psatd_ebfield": "sp", "field_damping_bcs": "damp", "merge_fields": "merge", "calc_diags": "diag", "output_routines": "out"}


def build_sim(variant, outdir, extra_flags="", name="pxr", extra_csrc=(), extra_ld=""):
    """/repo's own main program with the monitor linked in: the phase routines are wrapped at link time
    (ld --wrap), whatever file or module they live in."""
    build(variant, outdir, {"librepo.a": []}, extra_flags=extra_flags, exclude=("main.F90",))
    out = subprocess.run(["nm", "-g", "--defined-only", outdir + "/librepo.a"], capture_output=True, text=True).stdout
    syms = {l.split()[2] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in "TW"}
    os.makedirs(outdir + "/inc", exist_ok=True)
    inc, ld = [], []
    for s in sorted(syms):
        base = s.split("_MOD_")[1] if "_MOD_" in s else s[:-1] if s.endswith("_") else None
        if base in PHASES:
            inc.append(f'W({s}, "{PHASES[base]}")')
            ld.append(f"-Wl,--wrap={s}")
        elif base == "read_from_cl":
            inc.append(f"WO({s})")
            ld.append(f"-Wl,--wrap={s}")
    with open(outdir + "/inc/wraps.inc", "w") as f:
        f.write("\n".join(inc) + "\n")
    build(variant, outdir, {name: [SRC + "/main.F90", VERIF + "/harness/mon.F90", VERIF + "/harness/wraps.c", *extra_csrc]},
          extra_flags=extra_flags, extra_ld=" ".join(ld) + " " + extra_ld)
    return outdir + "/" + name


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], {"picsar": [SRC + "/main.F90", VERIF + "/harness/steps_stub.F90"]}))
