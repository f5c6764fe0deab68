#!/usr/bin/env python3
"""Q03: Breit-Wheeler engine: synthetic tables and scripted numbers against an independent evaluation, own integrals against scipy."""
import os, sys, math, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, qed, qedref as ref

RULE = ("seeded tables (2-40 nodes), photons from below the pair threshold to gamma 1e6, fields set for a wanted chi below, around, inside and above the tables, scripted draws incl. 0, 1/2, 1/2-eps, 1-eps, "
        "steps that stop before, at and far beyond the optical depth; rates, cumulative spectra and computed tables at seeded chi against scipy; distinct by situation kind, step kind, side of the table, sampling; non-trivial when an event or pair is decided")
T = chk.THOROUGH
REPS = 6000 if T else 600
TOL = {"double": 2e-5, "float": 1e-3}


def body(c, d):
    V = qed.VARIANTS
    jobs = [dict(name="bw", real=r, units=u, extra=qed.SAN) for r, u in V] + [dict(name="bw", real=r, units=u, extra=["-O2"], tag="_o2") for r, u in V]
    exes = qed.build_all(d, jobs)
    work = []
    for (r, u), e, o in zip(V, exes[:4], exes[4:]):
        w = os.path.join(d, f"{r}_{u}"); os.mkdir(w)
        work.append((r, u, "evt", e, [chk.SEED, "evt", REPS], w, None))
        work.append((r, u, "int", o, [chk.SEED, "int", 0, 120 if T else 16, 120 if T else 16, 0, 0], w, 1))
        for n in (1, 4):
            work.append((r, u, f"tab{n}", o, [chk.SEED, "int", 1, 0, 0, 9 if T else 5, 21 if T else 7], w, n))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: qed.run(k[3], k[4], cwd=k[5], threads=k[6], leaks=0 if k[6] else 1, timeout=3000 if T else 600), work))
    tabs, memo = {}, {}
    TT = lambda *a: memo.setdefault(a, None) or memo.__setitem__(a, ref.TT(*a)) or memo[a]
    for (r, u, ph, *_), o in zip(work, res):
        lab = f"{r}_{u}_{ph}"
        chk.mark(c, lab)
        rec, tol = qed.facts(c, lab, o, sanitized=ph == "evt"), TOL[r]
        tiny = 1e-30 if r == "float" else 1e-290  # values that underflow in the type may be anything below this
        for lam, en, chi, v in rec.get("rate", []):
            a, mc2 = ref.units(u, lam)
            k = a * mc2 / (en * chi)
            w = k * TT(chi)
            c.close(v, w, tol * max(1, .3 / chi) * w + k * tiny, f"rate_integral/{r}_{u}", f"chi {chi:.6g}: rate {v:.9g}, integral {w:.9g}", scale=1.0)
        for chi, f, v in rec.get("cum", []):
            w = TT(chi, f) / TT(chi)
            c.close(v, w, 2 * tol, f"spectrum_integral/{r}_{u}", f"chi {chi:.6g} fraction {f:.6g}: {v:.9g} instead of {w:.9g}", scale=1.0)
        for x, y in rec.get("tt", []):
            w = TT(math.exp(x))
            c.close(math.exp(y), w, 2 * tol * max(1, .3 / math.exp(x)) * w + tiny, f"rate_table_node/{r}_{u}", f"node chi {math.exp(x):.6g}", scale=1.0)
        if "tt" in rec:
            x = [t[0] for t in rec["tt"]]
            c.ok(len(x) == 8 and abs(math.exp(x[0]) / 0.02 - 1) < 1e-5 and abs(math.exp(x[-1]) / 300 - 1) < 1e-5 and all(abs(x[i + 1] - x[i] - (x[-1] - x[0]) / 7) < 1e-5 for i in range(7)), f"rate_table_nodes/{r}_{u}", f"nodes {x}")
        for x, p, j, n, y in rec.get("pair", []):
            chi, n, j = math.exp(x), int(n), int(j)
            c.ok(abs(p - 0.5 * j / (n - 1)) < 1e-6, f"spectrum_table_nodes/{r}_{u}", f"column {j} of {n} at {p}")
            c.ok(y <= math.log(0.5) + 1e-3, f"spectrum_table_range/{r}_{u}", f"probability exp({y}) below one half of the energy")
            want = 0 if j == 0 else 0.5 if j == n - 1 else TT(chi, p) / max(TT(chi), 1e-300)
            if chi < 0.011 and r == "float":
                want = min(want, 0.5) if j == n - 1 else 0.0  # the rate itself underflows
            c.close(math.exp(y), want, 4 * tol * max(want, 1e-3), f"spectrum_table/{r}_{u}", f"chi {chi:.6g} fraction {p:.6g}: {math.exp(y):.8g} instead of {want:.8g}", scale=1.0)
        if ph.startswith("tab"):
            tabs.setdefault((r, u), []).append((rec.get("tt"), rec.get("pair")))
    for k, t in tabs.items():
        c.ok(t[0] == t[1], f"table_threads/{k[0]}_{k[1]}", "the tables depend on the number of threads")


if __name__ == "__main__":
    chk.run("Q03", RULE, body, assumptions=["single-precision SI: squares of fields and momenta representable (Q05)", "draws are in [0, 1)", "outside the rate table Erber's approximation with its leading asymptotic terms is the reference",
                                            "the rate's accuracy is judged at 2e-5 (double) and 1e-3 (float), the quadrature's contract, scaled by 0.3/chi at small chi (exponential sensitivity)"])
