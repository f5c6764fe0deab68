#!/usr/bin/env python3
"""Q05: quantum parameters against the covariant definition in quadruple precision, in both unit systems and precisions, under UBSan."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed

RULE = ("seeded momenta (1e-3..1e6 mc), fields (1e8..1e17 V/m, E only, B only, along the momentum, plane waves co- and counter-propagating, none) and rotations, converted to the "
        "library's units; distinct by (geometry, decades of p, E, B); non-trivial when momentum and field are not zero")
REPS = 200000 if chk.THOROUGH else 20000


def body(c, d):
    jobs = [dict(name="chi", real=r, units=u, extra=qed.SAN) for r, u in qed.VARIANTS]
    for j, exe in zip(jobs, qed.build_all(d, jobs)):
        lab = f"{j['real']}_{j['units']}"
        chk.mark(c, lab)
        qed.facts(c, lab, qed.run(exe, [chk.SEED, REPS], cwd=d))


if __name__ == "__main__":
    chk.run("Q05", RULE, body, assumptions=["a lepton exactly at rest has chi = 0 by the library's convention", "tolerances follow the conditioning of the formula (|E|+c|B| and gamma), plus the underflow of p*p in single-precision SI"])
