#!/usr/bin/env python3
"""Q08: histories of the QED library's containers, tables, engines and table files under ASan/UBSan/LSan (4 builds, g++ and clang) and under memcheck for uninitialised reads."""
import os, sys, re, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed

RULE = ("seeded histories of construction, copy, move, (self-)assignment, resize, element access, wrapping of raw pointers, export, serialisation, reading of whole, truncated, missing and "
        "damaged files, table computation and event generation, with contents compared to a model after every step; distinct by (operation, element type, size or state)")
T = chk.THOROUGH
N, M = (60000, 600) if T else (5000, 60)
MEMCHECK = [("mem", lambda d: [chk.SEED, 60 if T else 12, 0]), ("lookup", lambda d: [chk.SEED, 40 if T else 6]), ("chi", lambda d: [chk.SEED, 60 if T else 15]),
            ("schw", lambda d: [chk.SEED, 60 if T else 15]), ("rngw", lambda d: [chk.SEED, 4 if T else 1])]


def sanitized(c, d):
    jobs = [dict(name="mem", real=r, units=u, std=s, cxx=x, extra=qed.SAN + ["-D_GLIBCXX_ASSERTIONS"], tag=x)
            for r, u, s, x in (("double", "SI", "c++17", "g++"), ("float", "SI", "c++14", "clang++"), ("float", "norm", "c++14", "clang++"), ("double", "norm", "c++17", "g++"))]
    exes = qed.build_all(d, jobs)

    def one(k):
        e = os.path.join(d, f"r{k}")
        os.makedirs(e)
        return qed.run(exes[k], [chk.SEED, N, M], cwd=e, threads=2, timeout=3000 if T else 600, leaks=1)
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, range(4)))
    for j, r in zip(jobs, res):
        lab = f"{j['real']}_{j['units']}_{j['cxx']}"
        chk.mark(c, lab)
        qed.facts(c, lab, r)


def memcheck(c, d):
    exes = qed.build_all(d, [dict(name=n, tag="mc") for n, _ in MEMCHECK])

    def one(k):
        e = os.path.join(d, f"v{k}")
        os.makedirs(e)
        n, a = MEMCHECK[k]
        return subprocess.run(["valgrind", "-q", "--error-exitcode=0", "--leak-check=full", "--errors-for-leak-kinds=definite", "--track-origins=yes", exes[k], *map(str, a(d))], capture_output=True,
                              text=True, errors="replace", timeout=3000 if T else 600, cwd=e, env=dict(os.environ, OMP_NUM_THREADS="1"))
    with cf.ThreadPoolExecutor(5) as ex:
        res = list(ex.map(one, range(len(exes))))
    for (n, _), r in zip(MEMCHECK, res):
        if "\nE " not in "\n" + r.stdout and r.returncode >= 0:
            raise RuntimeError(f"memcheck run of {n} ended with {r.returncode}: {r.stderr[-1500:]}")
        err = [l for l in r.stderr.splitlines() if re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched|.*definitely lost|Source and dest)", l)]
        c.ok(not err, f"memcheck/{n}", lambda: " | ".join(err[:3]), r.stderr[-4000:])
        c.count("memcheck_runs")


def body(c, d):
    sanitized(c, d)
    memcheck(c, d)


if __name__ == "__main__":
    chk.run("Q08", RULE, body, assumptions=["a moved-from container is only assigned to or destroyed", "indices inside the container; tables with at least two nodes per axis",
                                           "engines wrapping exported pointers do not outlive the exporting engine"])
