#!/usr/bin/env python3
"""Q07: random-number wrapper and Poisson quantile: ranges, reproducibility, copies, distributions (Kolmogorov-Smirnov), moments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed

RULE = ("seeded sequences of draws (seeds 0, small, random and at the top of 64 bits; bounds and rates over many decades), histories of copy, move and assignment in mid-sequence, Poisson quantiles "
        "for lambda 0..80 and beyond the underflow of exp(-lambda); distinct by (kind, decade)")
REPS = 3000 if chk.THOROUGH else 300


def body(c, d):
    jobs = [dict(name="rngw", real=r, std="c++11", extra=qed.SAN) for r in ("double", "float")]
    for j, exe in zip(jobs, qed.build_all(d, jobs)):
        chk.mark(c, j["real"])
        qed.facts(c, j["real"], qed.run(exe, [chk.SEED, REPS], cwd=d))


if __name__ == "__main__":
    chk.run("Q07", RULE, body, assumptions=["a uniform draw may equal b when a+(b-a)u rounds up to b (never for [0,1))", "statistical thresholds at 4 sqrt(n) D and 8 sigma: false alarm below 1e-12 per test"])
