#!/usr/bin/env python3
"""Q01: lookup tables under AddressSanitizer/UBSan, every read compared with a long-double interpolant."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed

RULE = ("seeded one- and two-dimensional tables (2..70 nodes; generator-spaced, exactly spaced, log-of-log spaced and irregular grids; smooth and wild data), read at every node, "
        "one ulp beside every node and inside every cell; distinct by (kind of grid, sizes)")
REPS = 4000 if chk.THOROUGH else 600


def body(c, d):
    jobs = [dict(name="lookup", real=r, std=s, extra=qed.SAN) for r in ("double", "float") for s in ("c++17", "c++11")]
    for j, exe in zip(jobs, qed.build_all(d, jobs)):
        lab = f"{j['real']}_{j['std']}"
        chk.mark(c, lab)
        qed.facts(c, lab, qed.run(exe, [chk.SEED, REPS], cwd=d, leaks=0))


if __name__ == "__main__":
    chk.run("Q01", RULE, body, assumptions=["coordinates strictly increasing with at least two nodes", "equispaced lookups only on grids equispaced up to rounding", "arguments inside the range, both ends included"])
