#!/usr/bin/env python3
"""Q02: quantum synchrotron engine: synthetic tables and scripted numbers against an independent evaluation, own integrals against scipy."""
import os, sys, math, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed, qedref as ref

RULE = ("seeded tables (2-40 nodes, ranges 1e-4..1e5), leptons from near rest to gamma 1e6, fields set for a wanted chi below, around, inside and above the tables, scripted draws incl. 0, 1-eps and nodes, "
        "steps that stop before, at and far beyond the optical depth; rates, cumulative spectra and computed tables at seeded chi against scipy; distinct by situation kind, step kind, side of the table, sampling; non-trivial when an event or photon is decided")
T = chk.THOROUGH
REPS = 4000 if T else 400
TOL = {"double": 2e-4, "float": 1e-3}


def body(c, d):
    V = qed.VARIANTS
    jobs = [dict(name="qs", real=r, units=u, extra=qed.SAN) for r, u in V] + [dict(name="qs", real=r, units=u, extra=["-O2"], tag="_o2") for r, u in V]
    exes = qed.build_all(d, jobs)
    work = []
    for (r, u), e, o in zip(V, exes[:4], exes[4:]):
        w = os.path.join(d, f"{r}_{u}"); os.mkdir(w)
        work.append((r, u, "evt", e, [chk.SEED, "evt", REPS], w, None))
        si = u == "SI" or T
        work.append((r, u, "int", o, [chk.SEED, "int", 0, 24 if T else 6 if si else 3, 24 if T else 6 if si else 2, 0, 0], w, 1))
        work.append((r, u, "kk", o, [chk.SEED, "int", 1, 0, 0, 0, 0], w, 1))
        if u == "SI" or T:
            work.append((r, u, "em", o, [chk.SEED, "int", 2, 0, 0, 5 if T else 2, 5 if T else 3], w, 3))
            work.append((r, u, "em1", o, [chk.SEED, "int", 2, 0, 0, 5 if T else 2, 5 if T else 3], w, 1))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: qed.run(k[3], k[4], cwd=k[5], threads=k[6], leaks=0 if k[6] else 1, timeout=3000 if T else 600), work))
    tabs = {}
    for (r, u, ph, *_), o in zip(work, res):
        lab = f"{r}_{u}_{ph}"
        chk.mark(c, lab)
        rec, tol = qed.facts(c, lab, o, sanitized=ph == "evt"), TOL[r]
        for lam, en, chi, v in rec.get("rate", []):
            a, mc2 = ref.units(u, lam)
            w = a * mc2 / en * ref.KK(chi)
            c.close(v, w, tol, f"rate_integral/{r}_{u}", f"chi {chi:.6g}: rate {v:.9g}, integral {w:.9g}", scale=w)
        for chi, f, v in rec.get("cum", []):
            w = ref.KK(chi, min(f, 1)) / ref.KK(chi)
            c.close(v, w, 2 * tol, f"spectrum_integral/{r}_{u}", f"chi {chi:.6g} fraction {f:.6g}: {v:.9g} instead of {w:.9g}", scale=1.0)
        for x, y in rec.get("kk", []):
            w = math.log(ref.KK(math.exp(x)))
            c.close(y, w, tol * 1.5, f"rate_table_node/{r}_{u}", f"node chi {math.exp(x):.6g}", scale=1.0)
        if "kk" in rec:
            x = [t[0] for t in rec["kk"]]
            c.ok(len(x) == 6 and abs(math.exp(x[0]) / 0.002 - 1) < 1e-5 and abs(math.exp(x[-1]) / 150 - 1) < 1e-5 and all(abs(x[i + 1] - x[i] - (x[-1] - x[0]) / 5) < 1e-5 for i in range(5)), f"rate_table_nodes/{r}_{u}", f"nodes {x}")
        for x, p, j, n, y in rec.get("em", []):
            chi, n = math.exp(x), int(n)
            # the first and the last column stand for a tenth of the neighbouring probability
            want = 0.1 / (n - 1) if j == 0 else 1 - 0.1 / (n - 1) if j == n - 1 else j / (n - 1)
            c.ok(abs(p - j / (n - 1)) < 1e-6, f"spectrum_table_nodes/{r}_{u}", f"column {j} of {n} at {p}")
            c.ok(y < 0, f"spectrum_table_range/{r}_{u}", f"photon fraction exp({y}) at chi {chi:.6g}")
            got = ref.KK(chi, math.exp(min(y, 0))) / ref.KK(chi)
            c.close(got, want, 4 * tol, f"spectrum_table/{r}_{u}", f"chi {chi:.6g} column {j} of {n}: fraction {math.exp(y):.6g} has probability {got:.8g}, not {want:.8g}", scale=1.0)
        if ph.startswith("em"):
            tabs[r, u, ph] = rec.get("em")
    for (r, u, ph), t in tabs.items():
        if ph == "em":
            c.ok(t == tabs[r, u, "em1"], f"spectrum_table_threads/{r}_{u}", "the table depends on the number of threads")


if __name__ == "__main__":
    chk.run("Q02", RULE, body, assumptions=["event and emission rates accept either |p|c or gamma m c^2 as the lepton's energy", "single-precision SI: squares of fields and momenta representable (Q05)",
                                            "draws are in [0, 1)", "the rate's accuracy is judged at 2e-4 (double) and 1e-3 (float), the quadrature's contract"])
