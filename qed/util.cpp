// Q06: Bessel functions, quadratures, root finder and grid generators.  K_v values are printed and judged by scipy.
#include "q.hpp"
#include "special_functions.hpp"
#include "quadrature.hpp"
#include "utilities.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
typedef std::function<real(real)> Fn;
static const double SQ = std::sqrt(EPS);
static const double QI = sizeof(real) == 4 ? 60 : 400;

static void monotone(const std::vector<real>& v, const char* key, const char* what) {
    for (size_t i = 1; i < v.size(); i++) if (!q.ok(v[i] > v[i - 1], key, "%s: element %zu of %zu: %.9g after %.9g", what, i, v.size(), (double)v[i], (double)v[i - 1])) return;
}
static void grids(Rng& r, long it) {
    size_t n = it % 5 == 0 ? (size_t)r.n(2, 5) : (size_t)r.n(2, it % 7 == 0 ? 1500 : 90);
    {
        real a = it % 6 == 0 ? (real)0 : (real)(r.g() * r.lg(1e-3, 1e3)), b = a + (real)(r.lg(1e-2, 1e4) * (1 + std::fabs((double)a)));
        std::vector<real> v = generate_lin_spaced_vec<real>(a, b, n);
        q.ok(v.size() == n, "lin_size", "asked %zu got %zu", n, v.size());
        if (v.size() == n) {
            q.ok(v.front() == a && v.back() == b, "lin_ends", "[%g,%g] asked, [%g,%g] got", (double)a, (double)b, (double)v.front(), (double)v.back());
            monotone(v, "lin_monotone", "linear");
            for (size_t i = 0; i < n; i++) q.close("lin_spacing", v[i], (ld)a + (ld)i * ((ld)b - a) / (n - 1), 4 * EPS * (fabsl(a) + fabsl(b)), S("element %zu of %zu", i, n).c_str());
        }
        q.kase(S("lin %zu %d", n, (int)(a < 0)));
        q.ok(generate_lin_spaced_vec<real>(b, a, n).empty() && generate_lin_spaced_vec<real>(a, b, n % 2).empty() && generate_lin_spaced_vec<real>(a, a, n).empty(), "lin_reject", "invalid arguments not rejected");
    }
    {
        real a = (real)r.lg(1e-12, 1e3), b = a * (real)r.lg(1.5, 1e12);
        std::vector<real> v = generate_log_spaced_vec<real>(a, b, n);
        q.ok(v.size() == n, "log_size", "asked %zu got %zu", n, v.size());
        if (v.size() == n) {
            q.ok(v.front() == a && v.back() == b, "log_ends", "[%g,%g] asked, [%g,%g] got", (double)a, (double)b, (double)v.front(), (double)v.back());
            ld st = logl((ld)b / a) / (n - 1);
            if (st > 20 * (double)n * EPS) monotone(v, "log_monotone", "logarithmic");
            for (size_t i = 0; i < n; i++) q.close("log_spacing", logl(v[i] / (ld)a), i * st, (4 + 3 * (double)i) * EPS * (1 + st), S("element %zu of %zu", i, n).c_str());
        }
        q.kase(S("log %zu %d", n, (int)std::log10((double)b / a)));
        bool rej = true;
        for (real bad : {-a, (real)0}) rej &= generate_log_spaced_vec<real>(bad, b, n).empty();
        q.ok(rej && generate_log_spaced_vec<real>(b, a, n).empty() && generate_log_spaced_vec<real>(a, b, n % 2).empty() && generate_log_spaced_vec<real>(a, a, n).empty(), "log_reject", "invalid arguments not rejected");
    }
    {
        size_t m = n;
        real a = (real)r.lg(1e-9, 1e-3), b = (real)r.lg(1, 1e3);
        std::vector<real> v = generate_log_lin_log_spaced_vec<real>(a, b, m);
        q.ok(v.size() == m, "loglinlog_size", "asked %zu got %zu", m, v.size());
        if (v.size() == m) {
            q.ok(v.front() == a && v.back() == b, "loglinlog_ends", "[%g,%g] asked, [%g,%g] got", (double)a, (double)b, (double)v.front(), (double)v.back());
            for (size_t i = 0; i < m; i++) q.ok(v[i] >= a && v[i] <= b, "loglinlog_inside", "element %zu of %zu is %.9g, outside [%g,%g]", i, m, (double)v[i], (double)a, (double)b);
            monotone(v, "loglinlog_monotone", S("log-lin-log of %zu", m).c_str());
        }
        q.kase(S("loglinlog %zu", m));
    }
}
static long refused = 0, asked = 0;
// Boost's tanh_sinh reports integrands it cannot handle by throwing; that is a documented refusal, never a value
static void qs(const char* key, const Fn& f, real a, real b, ld exact, ld tol, const char* what) {
    ++asked;
    real v;
    try { v = quad_a_b_s<real>(f, a, b); } catch (const std::exception&) { ++refused; return; }
    q.close(key, v, exact, tol, what);
}
struct I { const char* name; Fn f; double a, b; ld exact; };
static void quads(Rng& r) {
    double p = r.u(0.2, 3), w = r.u(0.5, 4), a = r.u(-2, 1), b = a + r.u(0.3, 3);
    long n = r.n(0, 6);
    std::vector<I> s = {
        {"monomial", [n](real x) { return (real)std::pow(x, (real)n); }, a, b, (powl(b, n + 1) - powl(a, n + 1)) / (n + 1)},
        {"sin", [w](real x) { return (real)std::sin(w * x); }, a, b, (cosl(w * a) - cosl(w * b)) / w},
        {"exp", [p](real x) { return (real)std::exp(-p * x); }, a, b, (expl(-p * a) - expl(-p * b)) / p},
        {"lorentz", [](real x) { return (real)(1 / (1 + x * x)); }, a, b, atanl(b) - atanl(a)},
    };
    double tol = 400 * SQ;
    for (auto& i : s) {
        // size of the integrand, for cancellation
        double m = 0; for (int k = 0; k <= 50; k++) m = std::max(m, (double)std::fabs(i.f((real)(i.a + (i.b - i.a) * k / 50))));
        real A = (real)i.a, B = (real)i.b;
        ld sh = m * (fabsl((ld)A - i.a) + fabsl((ld)B - i.b));
        q.close("quad_a_b", quad_a_b<real>(i.f, A, B), i.exact, tol * m * (i.b - i.a) + sh, i.name);
        qs("quad_a_b_s", i.f, A, B, i.exact, 2 * SQ * m * (i.b - i.a) + sh, i.name);
        q.kase(S("quad %s %ld", i.name, n));
    }
    double c = r.u(0.2, 5);
    real C = (real)c;
    qs("quad_singular", [](real x) { return (real)(1 / std::sqrt(x)); }, 0, C, 2 * sqrtl(C), SQ * 2 * std::sqrt(c), "1/sqrt(x)");
    qs("quad_singular", [](real x) { return (real)std::log(x); }, 0, C, (ld)C * logl(C) - C, SQ * (c * (1 + std::fabs(std::log(c)))), "log(x)");
    qs("quad_singular", [C](real x) { return (real)std::pow(x, (real)(-1. / 3)); }, 0, C, 1.5L * powl(C, 2.L / 3), SQ * 1.5 * std::pow(c, 2. / 3), "x^-1/3");
    double al = r.u(0, 3);
    real AL = (real)al, P = (real)p;
    q.close("quad_a_inf", quad_a_inf<real>([P](real x) { return (real)std::exp(-P * x); }, AL), expl(-(ld)P * AL) / P, QI * SQ * expl(-p * al) / p, "exp(-px)");
    q.close("quad_a_inf", quad_a_inf<real>([](real x) { return (real)(1 / (1 + x * x)); }, AL), M_PI_2 - atanl(AL), QI * SQ, "1/(1+x^2)");
    q.close("quad_a_inf", quad_a_inf<real>([](real x) { return (real)std::exp(-x * x); }, AL), 0.5L * sqrtl(acosl(-1.L)) * erfcl(AL), QI * SQ, "exp(-x^2)");
    q.close("quad_a_inf", quad_a_inf<real>([P](real x) { return (real)(x * std::exp(-P * x)); }, AL), expl(-(ld)P * AL) * (AL / (ld)P + 1 / ((ld)P * P)), QI * SQ * (1 + 1 / (p * p)), "x exp(-px)");
    q.kase(S("quadinf %d %d", (int)(4 * al), (int)(4 * p)));
}
static void roots(Rng& r) {
    double a = r.lg(1e-3, 1e3);
    real x0 = (real)a, g = (real)(a * r.lg(0.05, 20));
    // rising and falling, root of the sign of the guess
    q.close("root", bracket_and_solve_root<real>([x0](real x) { return (real)(x * x * x - x0 * x0 * x0); }, g, true), x0, 64 * EPS * a, "x^3-a^3");
    q.close("root", bracket_and_solve_root<real>([x0](real x) { return (real)(x0 / x - 1); }, g, false), x0, 64 * EPS * a, "a/x-1");
    q.close("root", bracket_and_solve_root<real>([x0](real x) { return (real)(x + x0); }, -g, true), -x0, 64 * EPS * a, "x+a");
    q.kase(S("root %d", (int)std::log10(a)));
}
template<class A, class B> static void bessel1(A v, B x, int kind) { printf("R K %.17g %.17g %.17g %d\n", (double)v, (double)x, (double)k_v(v, x), kind); q.kase(S("K%d %.2f", kind, (double)v)); }
static void bessel(Rng& r, long it) {
    double v = it % 4 == 0 ? 1. / 3 : it % 4 == 1 ? 2. / 3 : it % 4 == 2 ? 5. / 3 : r.u(0, 5), x = r.lg(1e-6, 600);
    if (it % 16 == 3) v = (double)r.n(0, 4);
    if (it % 10 == 0) x = r.u(1.9, 2.1);
    if (it % 8 == 6) x = r.lg(600, 1e30);
    bessel1<real, real>((real)v, (real)x, sizeof(real) == 4 ? 1 : 0);
    bessel1<double, float>(v, (float)x, 2);
    bessel1<float, double>((float)v, x, 2);
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10);
    long reps = atol(v[2]);
    for (long i = 0; i < reps; i++) { Rng r(seed * 1000003 + i); grids(r, i); bessel(r, i); if (i % 4 == 0) { quads(r); roots(r); } }
    printf("R refused %ld %ld\n", refused, asked);
    return q.finish();
}
