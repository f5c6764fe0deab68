"""Builds the QED harnesses from /repo's headers and feeds their facts to a Check."""
import os, subprocess, concurrent.futures as cf
import chk
SRC = os.path.join(chk.REPO, "src/multi_physics/QED/src")
DIR = os.path.join(chk.VERIF, "qed")
SAN = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer"]
VARIANTS = [("double", "SI"), ("float", "SI"), ("double", "norm"), ("float", "norm")]


def build(scr, name, real="double", units="SI", std="c++17", extra=(), cxx="g++", tag=""):
    """-> (path, None) or (None, compiler output)"""
    out = os.path.join(scr, f"{name}_{real}_{units}_{std.replace('+', 'p')}{tag}")
    gnu = ["-fext-numeric-literals", "-fopenmp"] if cxx == "g++" else ["-I", DIR + "/stub"]
    cmd = [cxx, f"-std={std}", *gnu, "-O1", "-g", "-w", "-I", SRC, "-I", DIR, f"-DREAL={real}", *(["-DPXRMP_USE_NORMALIZED_UNITS"] if units == "norm" else []),
           *extra, os.path.join(DIR, name + ".cpp"), "-lquadmath", "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return (out, None) if r.returncode == 0 else (None, r.stderr[-3000:])


def build_all(scr, jobs):
    """jobs: list of kwargs; parallel; a build that fails is no answer: raise"""
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: build(scr, **k), jobs))
    for j, (p, e) in zip(jobs, res):
        if p is None:
            raise RuntimeError(f"build of {j} failed:\n{e}")
    return [p for p, _ in res]


def run(exe, args=(), timeout=600, env=None, threads=None, cwd=None, leaks=1):
    e = dict(os.environ, ASAN_OPTIONS=f"detect_leaks={leaks}:allocator_may_return_null=1:exitcode=66:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1",
             **({"OMP_NUM_THREADS": str(threads)} if threads else {}), **(env or {}))
    return subprocess.run([exe, *map(str, args)], capture_output=True, text=True, errors="replace", timeout=timeout, env=e, cwd=cwd)


def facts(c, label, r, sanitized=True):
    """accounts the harness's lines in the check; returns the R records {tag: [[floats]...]}"""
    rec, ended = {}, False
    for l in r.stdout.splitlines():
        k, _, t = l.partition(" ")
        if k == "V":
            key, _, m = t.partition(" ")
            c.violation(f"{key}/{label}", m)
        elif k == "C":
            c.keys.add(label + ":" + t)
            if len(c.samples) < 12 and len(c.keys) % 17 == 1:
                c.samples.append(label + ":" + t)
        elif k == "W":
            n, v = t.rsplit(" ", 1)
            c.worst(n, float(v))
        elif k == "E":
            a, b = map(int, t.split())
            c.count("oracle_evaluations", a)
            c.evals += b
            ended = True
        elif k == "R":
            p = t.split()
            rec.setdefault(p[0], []).append([float(x) for x in p[1:]])
    msg = [l for l in r.stderr.splitlines() if "runtime error:" in l or "ERROR: AddressSanitizer" in l or "ERROR: LeakSanitizer" in l or "SUMMARY:" in l]
    if msg:
        kind = "leak" if "LeakSanitizer" in "".join(msg) and "AddressSanitizer:" not in msg[0] else "memory" if "AddressSanitizer" in "".join(msg) else "undefined"
        c.ok(False, f"sanitizer_{kind}/{label}", " | ".join(msg[:4]), r.stderr[-4000:])
    elif r.returncode < 0 or (not ended and r.returncode in (1, 134, 139)):
        c.ok(False, f"crash/{label}", f"harness ended with {r.returncode}: {r.stderr[-400:]}")
    elif not ended:
        raise RuntimeError(f"{label}: harness ended with {r.returncode}\n{r.stderr[-2000:]}")
    if sanitized:
        c.count("sanitized_runs")
    return rec
