// Q04: Schwinger engine against the formula in quadruple precision, for the fields as handed over and after random Lorentz boosts.
#include "q.hpp"
#include "refq.hpp"
#include "rng_wrapper.hpp"
#include "schwinger_pair_engine.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
static std::vector<real> script; static size_t pos_ = 0;
struct Scripted { // hands out the numbers of a script, and remembers the bounds asked for
    real unf(real a, real b) { real u = pos_ < script.size() ? script[pos_] : (real)0.25; ++pos_; return a + (b - a) * u; }
    real exp(real) { return 1; }
};
typedef schwinger_pair_engine<real, Scripted> Eng;
typedef schwinger_pair_engine<real, stl_rng_wrapper<real>> EngR;

static Fq rate_inv(Fq ff, Fq gg) { // pairs per metre^3 and second from the two invariants (units of E_s^2)
    Fq in = sqrtq(ff * ff + gg * gg), eps, eta;
    if (ff >= 0) { eps = sqrtq(in + ff); eta = eps > 0 ? fabsq(gg) / eps : Fq(0); } else { eta = sqrtq(in - ff); eps = fabsq(gg) / eta; }
    if (eps == 0) return 0;
    Fq pref = qE0 * qE0 * qES() * qES() / (4 * qPI * qPI * qHB * qHB * qC);
    Fq x = qPI * eta / eps;
    Fq coth = x < Fq(1e-20) ? Fq(0) : 1 / tanhq(x);
    return pref * (coth == 0 ? eps * eps / qPI : eps * eta * coth) * expq(-qPI / eps);
}
static void inv(V3 E, V3 B, Fq& ff, Fq& gg) { V3 cB = B * qC; Fq s = qES() * qES(); ff = (dt3(E, E) - dt3(cB, cB)) / (2 * s); gg = dt3(E, cB) / s; }
// reference and what rounding of the invariants in the type may do to it
static Fq ref(V3 E, V3 B, Fq& tol) {
    Fq ff, gg; inv(E, B, ff, gg);
    Fq s = qES() * qES(), e = nm3(E), b = qC * nm3(B), df = 6 * Fq(EPS) * (e * e + b * b) / (2 * s), dg = 6 * Fq(EPS) * e * b / s, r = rate_inv(ff, gg), t = 0;
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) { Fq d = fabsq(rate_inv(ff + i * df, gg + j * dg) - r); if (d > t) t = d; }
    Fq in = sqrtq(ff * ff + gg * gg), eps = sqrtq(in + ff > 0 ? in + ff : Fq(0));
    if (ff < 0) eps = fabsq(gg) / sqrtq(in - ff);
    // the sizes of the first- and second-order responses, and the exponential's conditioning
    tol = 3 * t + r * 16 * Fq(EPS) * (2 + (eps > 0 ? qPI / eps : Fq(0)));
    return r;
}
static double KU(double lam) { // SI rate -> the library's rate in its own units
#ifdef PXRMP_USE_NORMALIZED_UNITS
    return (double)(powq(lam, 4) / (16 * powq(qPI, 4) * qC) * Fq(1)); // per (c/omega)^3 and 1/omega
#else
    return 1;
#endif
}
static void one(Rng& r, long it) {
    static const double lams[] = {0.8e-6, 1e-6, 10e-6};
    double lam = lams[it % 3];
    int kind = (int)(it % 10);
    double Em = kind == 9 ? r.lg(1, 1e12) : r.lg(2e16, 3e19), Bm = kind == 8 ? r.lg(1e19, 1e22) : Em * r.lg(1e-3, 30);
    V3 e = unitv(r), E = e * Em, B = unitv(r) * (Bm / 299792458.);
    if (kind == 1) B = V3{0, 0, 0};
    if (kind == 2) { B = E * 1; E = V3{0, 0, 0}; B = B * (1 / qC); }
    if (kind == 3) B = perp(r, e) * (Em * r.u(0, 0.99) / 299792458.);      // E.B = 0, electric
    if (kind == 4) B = perp(r, e) * (Em * r.lg(1.01, 20) / 299792458.);    // E.B = 0, magnetic
    if (kind == 5) B = e * ((r.n(0, 1) ? 1 : -1) * Bm / 299792458.);        // parallel
    if (kind == 6) B = perp(r, e) * (Em / 299792458.);                       // plane wave
    if (kind == 7 && it % 20 == 7) E = B = V3{0, 0, 0};
    real L = (real)lam;
    Fq ue = u_e(L), ub = u_b(L);
    auto give = [&](V3 E, V3 B, real* f) { V3 a = E * ue, b = B * ub; f[0] = (real)a.x; f[1] = (real)a.y; f[2] = (real)a.z; f[3] = (real)b.x; f[4] = (real)b.y; f[5] = (real)b.z; };
    auto back = [&](const real* f, V3& E, V3& B) { E = V3{f[0], f[1], f[2]} * (1 / ue); B = V3{f[3], f[4], f[5]} * (1 / ub); };
    Eng eng(Scripted{}, L);
    real f[6]; give(E, B, f); back(f, E, B);
    Fq tol, R = ref(E, B, tol);
    if (!NORM && sizeof(real) == 4 && (nm3(E) > 1e19 || qC * nm3(B) > 1e19)) return; // squares above the range of the type
    double ku = KU(L), floor_ = std::numeric_limits<real>::min() * 16 + 3e-307 * 1.2e58 * ku;
    real v = eng.compute_schwinger_pair_production_rate(f[0], f[1], f[2], f[3], f[4], f[5]);
    bool over = (double)R * ku > 0.1 * std::numeric_limits<real>::max();
    q.kase(S("kind%d e%d b%d", kind, (int)std::floor(4 * std::log10(Em)), (int)std::floor(2 * std::log10(Bm))));
    if (over) { // single-precision SI cannot represent rates above 3e38
        q.ok(v > 0, "rate_overflow", "rate %g for %g", (double)v, (double)R);
        return;
    }
    // in single-precision SI the coefficient itself exceeds the type
    q.ok(v >= 0 && std::isfinite(v), "rate_range", "rate %g, kind %d |E|=%g |cB|=%g", (double)v, kind, (double)nm3(E), (double)(qC * nm3(B)));
    q.close("rate", v, (ld)(R * ku), (ld)(tol * ku) + floor_, S("kind %d |E|=%.4g |cB|=%.4g V/m", kind, (double)nm3(E), (double)(qC * nm3(B))).c_str());
    if (kind == 2 || (kind == 7 && it % 20 == 7)) q.ok(v == 0, "rate_zero", "no electric invariant but rate %g", (double)v);
    real st = Eng::internal_compute_schwinger_pair_production_rate(f[0], f[1], f[2], f[3], f[4], f[5], L);
    q.ok(st == v, "static_equals_member", "%g vs %g", (double)st, (double)v);
    // Lorentz invariance: the same local field seen from another frame
    if (kind != 9) do {
        V3 E2 = E, B2 = B; lboost(unitv(r) * r.u(0, 0.9), E2, B2);
        real g[6]; give(E2, B2, g); back(g, E2, B2);
        if (!NORM && sizeof(real) == 4 && (nm3(E2) > 1e19 || qC * nm3(B2) > 1e19)) break;
        Fq t2, R2 = ref(E2, B2, t2);
        real v2 = eng.compute_schwinger_pair_production_rate(g[0], g[1], g[2], g[3], g[4], g[5]);
        Fq ff, gg, df, dg; inv(E, B, ff, gg); inv(E2, B2, df, dg);
        q.close("rate_boosted", v2, (ld)(R2 * ku), (ld)(t2 * ku) + floor_, S("kind %d boosted", kind).c_str());
        q.close("rate_invariant", v2, v, (ld)((t2 + tol + 2 * fabsq(R2 - R)) * ku) + 2 * floor_, S("kind %d: rate changes with the frame", kind).c_str());
    } while (0);
    // expected number proportional to volume and time: event if and only if the draw is below rate*V*dt
    if (v > 0) {
        double want = r.lg(1e-3, 0.99), dV = want / (double)v;
        real dx = (real)(std::cbrt(dV) * r.u(0.5, 2)), dy = (real)(std::cbrt(dV) * r.u(0.5, 2)), dtt = 1;
        if (!(dx > 0) || !std::isfinite(dx)) return;
        double t = r.lg(1e-3, 1e-1);
        dtt = (real)t;
        real dz = (real)(dV / t / dx / dy);
        real V = dx * dy * dz;
        if (!(V > std::numeric_limits<real>::min()) || !std::isfinite(V)) return;
        ld lamb = (ld)v * dx * dy * dz * dtt;
        for (double s : {1 - 8 * EPS, 1 + 8 * EPS, 0.5, 1.5}) {
            real u = (real)(lamb * s);
            if (!(u >= 0 && u < 1)) continue;
            script = {u}; pos_ = 0;
            auto res = eng.generate_pairs_single(f[0], f[1], f[2], f[3], f[4], f[5], dx, dy, dz, dtt);
            q.ok(res.first == (s < 1), "event_threshold", "draw %.9g of expected %.9Lg: event %d", (double)u, lamb, (int)res.first);
            q.close("event_weight", res.second, 1 / ((ld)dx * dy * dz), 8 * EPS / ((ld)dx * dy * dz));
            q.ok(pos_ == 1, "event_draws", "%zu random numbers used for one decision", pos_);
        }
        // many pairs: the Poisson quantile of the draw
        real big = (real)(it % 2 ? r.lg(0.1, 60) : r.u(1, -0.95 * std::log((double)std::numeric_limits<real>::min()))), dt2 = (real)(dtt * (double)big / (double)lamb);
        ld mean = (ld)v * dx * dy * dz * dt2;
        if (std::isfinite(dt2) && mean > 0 && mean < -0.96 * std::log((double)std::numeric_limits<real>::min())) for (int k = 0; k < 3; k++) {
            real u = (real)r.u(); if (u >= 1) u = (real)0.5;
            script = {u}; pos_ = 0;
            auto res = eng.generate_pairs_multiple(f[0], f[1], f[2], f[3], f[4], f[5], dx, dy, dz, dt2);
            ld p = expl(-mean), s = p, tl = (400 + 4 * mean) * EPS; size_t lo = 0;
            while (lo < 4000 && s < (ld)u - tl) { ++lo; p *= mean / lo; s += p; }
            size_t hi = lo; ld ph = p, sh = s; while (hi < 4000 && sh < (ld)u + tl) { ++hi; ph *= mean / hi; sh += ph; }
            q.ok(res.first >= lo && res.first <= hi, "poisson_number", "mean %.6Lg draw %.9g gave %zu, expected %zu..%zu", mean, (double)u, res.first, lo, hi);
            q.close("event_weight", res.second, 1 / ((ld)dx * dy * dz), 8 * EPS / ((ld)dx * dy * dz));
        }
    }
}
static void positions(Rng& r) {
    uint64_t sd = r.next();
    EngR a(stl_rng_wrapper<real>{sd}), b(stl_rng_wrapper<real>{sd});
    EngR c(b);
    ld m[3] = {0, 0, 0}, cv[3] = {0, 0, 0}, lag[3] = {0, 0, 0};
    const int n = 4096, G = 4;
    std::vector<int> box(G * G * G, 0);
    real last[3] = {0.5, 0.5, 0.5};
    for (int i = 0; i < n; i++) {
        auto p = a.get_new_pair_position(), s = b.get_new_pair_position(), t = c.get_new_pair_position();
        int cell = 0;
        for (int k = 0; k < 3; k++) {
            q.ok(p[k] >= 0 && p[k] < 1, "position_range", "%g", (double)p[k]);
            q.ok(p[k] == s[k] && p[k] == t[k], "position_reproducible", "draw %d", i);
            m[k] += p[k];
            cv[k] += ((ld)p[k] - .5L) * ((ld)p[(k + 1) % 3] - .5L);
            lag[k] += ((ld)p[k] - .5L) * ((ld)last[k] - .5L);
            cell = cell * G + std::min(G - 1, std::max(0, (int)(p[k] * G)));
        }
        for (int k = 0; k < 3; k++) last[k] = p[k];
        box[cell]++;
    }
    for (int k = 0; k < 3; k++) {
        q.close("position_mean", m[k] / n, 0.5, 8 * 0.289 / std::sqrt((double)n));
        q.close("position_correlation", 12 * cv[k] / n, 0, 8 / std::sqrt((double)n), S("coordinates %d and %d", k, (k + 1) % 3).c_str());
        q.close("position_serial", 12 * lag[k] / n, 0, 8 / std::sqrt((double)n), S("coordinate %d of successive pairs", k).c_str());
    }
    // the cell is filled evenly: chi-square of the 64 sub-cells, mean 63, standard deviation 11.2
    ld chi2 = 0, want = (ld)n / box.size();
    for (int v : box) chi2 += (v - want) * (v - want) / want;
    q.close("position_uniform", chi2, 63, 110, "chi-square of the 64 sub-cells");
    EngR d(std::move(c));
    auto p = a.get_new_pair_position(), s = d.get_new_pair_position();
    q.ok(p[0] == s[0], "move_continues", "the moved engine does not continue");
    real l0 = (real)r.lg(1e-7, 1e-4), l1 = (real)r.lg(1e-7, 1e-4);
    EngR e(stl_rng_wrapper<real>{sd}, l0);
    q.ok(e.get_lambda() == (NORM ? l0 : (real)1), "lambda", "constructor"); e.set_lambda(l1);
    q.ok(e.get_lambda() == (NORM ? l1 : (real)1), "lambda_set", "setter");
    EngR f(stl_rng_wrapper<real>{sd}); q.ok(f.get_lambda() == 1, "default_lambda", "%g", (double)f.get_lambda());
    q.kase("positions");
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10);
    long reps = atol(v[2]);
    for (long i = 0; i < reps; i++) { Rng r(seed * 1000003 + i); one(r, i); if (i % 200 == 0) positions(r); }
    return q.finish();
}
