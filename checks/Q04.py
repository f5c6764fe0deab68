#!/usr/bin/env python3
"""Q04: Schwinger engine against the formula in quadruple precision, in boosted frames, and with scripted random numbers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed

RULE = ("seeded fields from 1 V/m to 1e22 V/m (general, purely electric, purely magnetic, orthogonal, parallel, null, magnetically dominated, zero), boosted to random frames; volumes and steps chosen "
        "around the event threshold; distinct by (geometry, decades of E and B); non-trivial when a field is present")
REPS = 60000 if chk.THOROUGH else 12000


def body(c, d):
    jobs = [dict(name="schw", real=r, units=u, extra=qed.SAN) for r, u in qed.VARIANTS]
    for j, exe in zip(jobs, qed.build_all(d, jobs)):
        lab = f"{j['real']}_{j['units']}"
        chk.mark(c, lab)
        qed.facts(c, lab, qed.run(exe, [chk.SEED, REPS], cwd=d))


if __name__ == "__main__":
    chk.run("Q04", RULE, body, assumptions=["squares of the fields are representable in the type (single-precision SI: below 1e19 V/m)", "Poisson numbers up to lambda = 80 (the underflow beyond is Q07's known finding)",
                                            "tolerances are the response of the formula to 6 ulp in the invariants"])
