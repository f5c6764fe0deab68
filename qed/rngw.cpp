// Q07: the random-number wrapper and the Poisson quantile function.
#include "q.hpp"
#include "rng_wrapper.hpp"
#include "utilities.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
typedef stl_rng_wrapper<real> W;

// Kolmogorov-Smirnov distance to a distribution function; sqrt(n)*D > 4 has probability 2 exp(-32) ~ 2.5e-14
static void ks(const char* key, std::vector<real>& v, const std::function<ld(ld)>& F, const char* what) {
    std::sort(v.begin(), v.end());
    ld D = 0, n = v.size();
    for (size_t i = 0; i < v.size(); i++) { ld f = F(v[i]); D = std::max(D, std::max(fabsl(f - i / n), fabsl(f - (i + 1) / n))); }
    q.close(key, sqrtl(n) * D, 0, 4 + sqrtl(n) * 64 * EPS, what);
}
static void draws(Rng& r, long it) {
    uint64_t seed = it % 5 == 0 ? (uint64_t)r.n(0, 3) : it % 7 == 0 ? ~0ull - r.n(0, 3) : r.next();
    real a = it % 3 == 0 ? (real)0 : (real)(r.g() * r.lg(1e-3, 1e3)), b = it % 3 == 0 ? (real)1 : a + (real)(r.lg(1e-3, 1e3) * (1 + 0.01 * std::fabs((double)a)));
    real l = (real)r.lg(1e-4, 1e4);
    int n = it % 20 == 0 ? 20000 : 1500;
    W w(seed), w2(seed), w3(std::mt19937_64{seed});
    std::vector<real> u(n), e(n);
    bool same = true, mover = true;
    for (int i = 0; i < n; i++) {
        u[i] = w.unf(a, b); e[i] = w.exp(l);
        same &= u[i] == w2.unf(a, b) && e[i] == w2.exp(l);
        mover &= u[i] == w3.unf(a, b) && e[i] == w3.exp(l);
        // [a,b): b itself only when a+(b-a)*u rounds up to it, which cannot happen for [0,1)
        q.ok(u[i] >= a && (a == 0 && b == 1 ? u[i] < b : u[i] <= b), "unf_range", "draw %.9g of [%.9g,%.9g), seed %llu", (double)u[i], (double)a, (double)b, (unsigned long long)seed);
        q.ok(e[i] >= 0 && std::isfinite(e[i]), "exp_range", "draw %.9g, rate %.9g, seed %llu", (double)e[i], (double)l, (unsigned long long)seed);
    }
    q.kase(S("draws %d %d", (int)std::floor(std::log10(l)), (int)std::floor(std::log10(b - a))));
    q.ok(same, "equal_seeds", "two wrappers with seed %llu differ", (unsigned long long)seed);
    q.ok(mover, "from_generator", "a wrapper made from a generator with seed %llu differs from the seeded one", (unsigned long long)seed);
    ks("unf_distribution", u, [&](ld x) { ld f = (x - a) / ((ld)b - a); return f < 0 ? 0 : f > 1 ? 1 : f; }, S("[%g,%g) seed %llu n=%d", (double)a, (double)b, (unsigned long long)seed, n).c_str());
    ks("exp_distribution", e, [&](ld x) { return -expm1l(-x * l); }, S("rate %g seed %llu n=%d", (double)l, (unsigned long long)seed, n).c_str());
    ld m = 0; for (real x : e) m += x;
    q.close("exp_mean", m / n * l, 1, 8 / std::sqrt((double)n) + n * EPS, "mean of the exponential draws times the rate");
    // independence of neighbours: the correlation of n pairs is 1/sqrt(n)
    W s(seed); s.unf(0, 1);
    ld c = 0; real p = s.unf(0, 1);
    for (int i = 0; i < n; i++) { real t = s.unf(0, 1); c += ((ld)p - .5L) * ((ld)t - .5L); p = t; }
    q.close("unf_serial", c / n * 12, 0, 8 / std::sqrt((double)n), "serial correlation");
    // copies, moves and assignments continue identically and independently
    W x(seed);
    int k = (int)r.n(0, 700);
    for (int i = 0; i < k; i++) x.unf(a, b);
    W c1(x), c2((uint64_t)1); c2 = x;
    W tmp(x), c3(std::move(tmp));
    bool ok1 = true, ok2 = true, ok3 = true;
    std::vector<real> first;
    for (int i = 0; i < 400; i++) { real t = i % 3 ? x.unf(a, b) : x.exp(l); first.push_back(t); }
    for (int i = 0; i < 400; i++) ok1 &= first[i] == (i % 3 ? c1.unf(a, b) : c1.exp(l));
    for (int i = 0; i < 400; i++) ok2 &= first[i] == (i % 3 ? c2.unf(a, b) : c2.exp(l));
    for (int i = 0; i < 400; i++) ok3 &= first[i] == (i % 3 ? c3.unf(a, b) : c3.exp(l));
    q.ok(ok1, "copy_continues", "after %d draws", k);
    q.ok(ok2, "assign_continues", "after %d draws", k);
    q.ok(ok3, "move_continues", "after %d draws", k);
    W other(seed + 1);
    bool diff = false; W again(seed);
    for (int i = 0; i < 8; i++) diff |= other.unf(0, 1) != again.unf(0, 1);
    q.ok(diff, "seeds_matter", "seeds %llu and the next give the same draws", (unsigned long long)seed);
}
// smallest k with P(X<=k) >= u
static void quantile(Rng& r, long it) {
    double edge = -std::log((double)std::numeric_limits<real>::min());
    double lam = it % 4 == 0 ? r.lg(1e-6, 1) : it % 4 == 1 ? r.u(0, 0.97 * edge) : r.lg(0.1, 80);
    if (it % 50 == 1) lam = 0;
    real L = (real)lam, u = it % 9 == 0 ? (real)0 : it % 9 == 1 ? (real)(1 - EPS / 2) : it % 9 == 2 ? (real)(1 - r.lg(1e-6, 1e-2)) : (real)r.u();
    if (u >= 1) u = std::nextafter((real)1, (real)0);
    size_t k = poisson_distrib<real>(L, u);
    ld p = expl(-(ld)L), s = p, tol = (200 + 4 * lam) * EPS;
    size_t lo = 0; while (lo < 4000 && s < (ld)u - tol) { ++lo; p *= (ld)L / lo; s += p; }
    ld sl = s; size_t hi = lo; ld ph = p; while (hi < 4000 && sl < (ld)u + tol) { ++hi; ph *= (ld)L / hi; if (sl + ph == sl && hi > L) break; sl += ph; }
    q.ok(k >= lo && k <= hi, "poisson_quantile", "lambda=%.9g u=%.17g gave %zu, expected %zu..%zu", (double)L, (double)u, k, lo, hi);
    q.kase(S("poisson %d", (int)std::floor(4 * std::log10(lam + 1e-9))));
}
static void means(Rng& r, long it) {
    double lam = it % 2 ? r.lg(1e-2, 80) : r.lg(1e-2, -0.97 * std::log((double)std::numeric_limits<real>::min()));
    W w(r.next());
    int n = 4000;
    ld m = 0, m2 = 0;
    for (int i = 0; i < n; i++) { ld k = poisson_distrib<real>((real)lam, w.unf(0, 1)); m += k; m2 += k * k; }
    m /= n;
    q.close("poisson_mean", m, lam, 8 * std::sqrt(lam / n) + 8. / n, S("lambda=%g", lam).c_str());
    // variance: kurtosis term 1/lambda
    q.close("poisson_variance", m2 / n - m * m, lam, 9 * lam * std::sqrt((2 + 1 / lam) / n) + 9. / n, S("lambda=%g", lam).c_str());
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10);
    long reps = atol(v[2]);
    for (long i = 0; i < reps; i++) { Rng r(seed * 1000003 + i); draws(r, i); for (int k = 0; k < 40; k++) quantile(r, i * 40 + k); means(r, i); }
    // where exp(-lambda) is no longer a normal number of the type
    double edge = -std::log((double)std::numeric_limits<real>::min());
    for (double f : {1.02, 1.5, 10.}) {
        double lam = edge * f;
        size_t k = poisson_distrib<real>((real)lam, (real)0.5);
        q.kase(S("poisson underflow %g", f));
        q.ok(std::fabs((double)k - lam) < 3, k == 1 ? "poisson_underflow_gives_1" : "poisson_large", "lambda=%g median %zu", lam, k);
    }
    return q.finish();
}
