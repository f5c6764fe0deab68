#!/usr/bin/env python3
"""Q06: grid generators, quadratures, root finder against exact results; modified Bessel functions against scipy."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from scipy.special import kv
import chk, qed

RULE = ("seeded end points and counts for the three grid generators, integrand families with exact integrals, monotone functions with known roots, orders 0..5 and arguments 1e-6..1e30 of K_v "
        "(both back ends: C++17 standard library and Boost under C++11); distinct by (function, size or parameter class)")
REPS = 20000 if chk.THOROUGH else 2500


def body(c, d):
    jobs = [dict(name="util", real=r, std=s, extra=qed.SAN) for r in ("double", "float") for s in ("c++17", "c++11")]
    for j, exe in zip(jobs, qed.build_all(d, jobs)):
        lab = f"{j['real']}_{j['std']}"
        chk.mark(c, lab)
        rec = qed.facts(c, lab, qed.run(exe, [chk.SEED, REPS], cwd=d))
        if "refused" not in rec:
            continue
        n, m = rec["refused"][0]
        c.ok(n <= 0.02 * m, f"quad_refused/{lab}", f"the finite quadrature refused {n:.0f} of {m:.0f} integrands")
        k = np.array(rec["K"])
        ref = kv(k[:, 0], k[:, 1])
        for kind, tol, big, small in ((0, 1e-10, 1e300, 1e-300), (1, 1e-4, 1e36, 1e-35), (2, 1e-10, 1e300, 1e-300)):
            s = (k[:, 3] == kind) & (ref < big)
            if not s.any():
                continue
            t = tol * ref[s] + small
            e = np.abs(k[s, 2] - ref[s]) / t
            c.worst(f"bessel_{kind}", np.max(e))
            i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
            c.ok(e[i] <= 1, f"bessel/{lab}", lambda: f"K_{k[s][i, 0]:.6g}({k[s][i, 1]:.9g}) = {k[s][i, 2]:.9g}, scipy {ref[s][i]:.9g}")
            c.count("bessel_values", int(s.sum()))


if __name__ == "__main__":
    chk.run("Q06", RULE, body, assumptions=["Boost's tanh-sinh rule may refuse an integrand by an exception (counted, at most 2 %)", "log-lin-log grids with 0 < min < max/10 and at least 6 points"])
