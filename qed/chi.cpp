// Q05: quantum parameters against the covariant definition in quadruple precision; three-vector helpers.
#include "q.hpp"
#include "refq.hpp"
#include "chi_functions.hpp"
#include "vec_functions.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
static const double TINY = std::numeric_limits<real>::denorm_min();
struct In { real p[3], e[3], b[3]; real lam; };
// the exact SI values of what the library is handed
static void si(const In& k, V3& P, V3& E, V3& B) {
    Fq up = u_p(k.lam), ue = u_e(k.lam), ub = u_b(k.lam);
    P = V3{k.p[0], k.p[1], k.p[2]} * (1 / up); E = V3{k.e[0], k.e[1], k.e[2]} * (1 / ue); B = V3{k.b[0], k.b[1], k.b[2]} * (1 / ub);
}
static In make(V3 P, V3 E, V3 B, double lam) {
    In k; k.lam = (real)lam;
    Fq up = u_p(k.lam), ue = u_e(k.lam), ub = u_b(k.lam);
    P = P * up; E = E * ue; B = B * ub;
    k.p[0] = (real)P.x; k.p[1] = (real)P.y; k.p[2] = (real)P.z; k.e[0] = (real)E.x; k.e[1] = (real)E.y; k.e[2] = (real)E.z; k.b[0] = (real)B.x; k.b[1] = (real)B.y; k.b[2] = (real)B.z;
    return k;
}
static real cp(const In& k) { return NORM ? chi_photon<real>(k.p[0], k.p[1], k.p[2], k.e[0], k.e[1], k.e[2], k.b[0], k.b[1], k.b[2], k.lam) : chi_photon<real>(k.p[0], k.p[1], k.p[2], k.e[0], k.e[1], k.e[2], k.b[0], k.b[1], k.b[2]); }
static real cl(const In& k) { return NORM ? chi_lepton<real>(k.p[0], k.p[1], k.p[2], k.e[0], k.e[1], k.e[2], k.b[0], k.b[1], k.b[2], k.lam) : chi_lepton<real>(k.p[0], k.p[1], k.p[2], k.e[0], k.e[1], k.e[2], k.b[0], k.b[1], k.b[2]); }
// what rounding may do: proportional to the field felt, plus the underflow of p*p in the type (single precision SI)
static void tols(const In& k, V3 P, V3 E, V3 B, Fq& tp, Fq& tl) {
    Fq n = nm3(P), mc = qME * qC, g = sqrtq(1 + dt3(P, P) / mc / mc), F = nm3(E) + qC * nm3(B), Es = qES(), chi = chi_lep_ref(P, E, B);
    Fq pu = n * u_p(k.lam), und = pu > 0 ? Fq(TINY) * 4 / (pu * pu) : Fq(0);
    tp = (16 * Fq(EPS) + und) * n * F / (Es * mc) + 4 * Fq(TINY);
    Fq beta = sqrtq(1 - 1 / (g * g)), db = 4 * Fq(EPS) / (beta > sqrtq(EPS) ? beta : sqrtq(EPS));
    Fq err2 = g * g * F * F * (4 * und + 24 * Fq(EPS) + 4 * db * (beta + db) + 2 * db) / (Es * Es);
    Fq a = sqrtq(err2), b = chi > 0 ? err2 / chi : a;
    tl = (a < b ? a : b) + (32 * Fq(EPS) + und) * chi + und * g * F / Es + 4 * Fq(TINY);
}
static void one(Rng& r, long it) {
    V3 n = unitv(r), E{0, 0, 0}, B{0, 0, 0}, e = unitv(r), b = unitv(r);
    double pm = 2.730924e-22 * r.lg(it % 3 == 0 ? 1e-3 : 1, 1e6), Em = r.lg(1e8, 1e17), Bm = r.lg(1e8, 1e17) / 3e8;
    int geo = (int)(it % 9);
    if (geo != 1) E = e * Em;
    if (geo != 2) B = b * Bm;
    V3 P = n * pm;
    if (geo == 3) { E = perp(r, n) * Em; B = cr3(n, E) * (1 / qC); }          // co-propagating plane wave
    if (geo == 4) { E = perp(r, n) * Em; B = cr3(n, E) * (-1 / qC); }         // head-on
    if (geo == 5) { E = n * Em; B = n * Bm; }                                   // fields along the momentum
    if (geo == 6) P = V3{0, 0, 0};
    if (geo == 7) { E = V3{0, 0, 0}; B = V3{0, 0, 0}; }
    static const double lams[] = {0.8e-6, 1e-6, 1e-9, 10e-6, 1.0};
    In k = make(P, E, B, lams[it % 5]);
    si(k, P, E, B);
    Fq tp, tl; tols(k, P, E, B, tp, tl);
    real a = cp(k), c = cl(k);
    q.kase(S("geo%d p%d e%d b%d", geo, (int)std::floor(2 * std::log10(pm)), (int)std::floor(2 * std::log10(Em)), (int)std::floor(2 * std::log10(Bm))));
    q.ok(a >= 0 && std::isfinite(a), "chi_photon_range", "chi=%g geometry %d", (double)a, geo);
    q.ok(c >= 0 && std::isfinite(c), "chi_lepton_range", "chi=%g geometry %d", (double)c, geo);
    q.close("chi_photon", a, (ld)chi_phot_ref(P, E, B), (ld)tp, S("geometry %d p=%.3g mc E=%.3g cB=%.3g", geo, pm / 2.730924e-22, Em, Bm * 3e8).c_str());
    if (geo != 6) q.close("chi_lepton", c, (ld)chi_lep_ref(P, E, B), (ld)tl, S("geometry %d p=%.3g mc E=%.3g cB=%.3g", geo, pm / 2.730924e-22, Em, Bm * 3e8).c_str());
    if (geo == 6 || geo == 7) q.ok(a == 0 && c == 0, "chi_zero", "momentum or field is zero but chi is %g / %g", (double)a, (double)c);
    if (geo == 3) q.close("chi_photon_copropagating", a, 0, (ld)tp);
    // left out, the reference length is 1; in SI units it does not matter at all
    if (!NORM || k.lam == 1) {
        In o = k; if (!NORM) o.lam = (real)r.lg(1e-9, 10);
#define CHI(f, ...) f<real>(o.p[0], o.p[1], o.p[2], o.e[0], o.e[1], o.e[2], o.b[0], o.b[1], o.b[2] __VA_ARGS__)
        q.ok(CHI(chi_photon) == a && CHI(chi_photon, , o.lam) == a, "chi_photon_lambda", "%g and %g for %g", (double)CHI(chi_photon), (double)CHI(chi_photon, , o.lam), (double)a);
        q.ok(CHI(chi_lepton) == c && CHI(chi_lepton, , o.lam) == c, "chi_lepton_lambda", "%g and %g for %g", (double)CHI(chi_lepton), (double)CHI(chi_lepton, , o.lam), (double)c);
    }
    // linear in the field: a power of two changes nothing but the exponent
    In s = k; int ex = (int)r.n(1, 3); real f = (real)std::ldexp(1., ex);
    for (int i = 0; i < 3; i++) { s.e[i] *= f; s.b[i] *= f; }
    q.close("chi_photon_linear", cp(s), (ld)a * f, (ld)(4 * EPS) * a * f + (ld)TINY * 16);
    q.close("chi_lepton_linear", cl(s), (ld)c * f, (ld)(4 * EPS) * c * f + (ld)TINY * 16);
    // proper and improper rotations of everything together: relabelled axes with signs (exact in the type)
    int pr[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}, sg[3] = {r.n(0, 1) ? 1 : -1, r.n(0, 1) ? 1 : -1, r.n(0, 1) ? 1 : -1};
    int* pm3 = pr[r.n(0, 5)];
    int par = (pm3 == pr[0] || pm3 == pr[3] || pm3 == pr[4] ? 1 : -1) * sg[0] * sg[1] * sg[2];
    In t = k;
    for (int i = 0; i < 3; i++) { t.p[i] = sg[i] * k.p[pm3[i]]; t.e[i] = sg[i] * k.e[pm3[i]]; t.b[i] = par * sg[i] * k.b[pm3[i]]; }
    q.close("chi_photon_rotation", cp(t), a, 2 * (ld)tp);
    q.close("chi_lepton_rotation", cl(t), c, 2 * (ld)tl);
}
static void vec(Rng& r, long it) {
    vec3<real> a, b, c, d;
    ld A[3], Bv[3], Cv[3];
    double sc = r.lg(1e-6, 1e6);
    for (int i = 0; i < 3; i++) { a[i] = (real)(r.g() * sc); b[i] = (real)(r.g() * sc); c[i] = (real)(r.g() * sc); A[i] = a[i]; Bv[i] = b[i]; Cv[i] = c[i]; }
    if (it % 7 == 0) b = a * (real)2;
    if (it % 11 == 0) a = vec3<real>{(real)0, (real)1, (real)0};
    for (int i = 0; i < 3; i++) { A[i] = a[i]; Bv[i] = b[i]; }
    real s = (real)r.u(-3, 3);
    ld na2 = A[0] * A[0] + A[1] * A[1] + A[2] * A[2], nb2 = Bv[0] * Bv[0] + Bv[1] * Bv[1] + Bv[2] * Bv[2], ab = A[0] * Bv[0] + A[1] * Bv[1] + A[2] * Bv[2], tol = 8 * EPS * sqrtl(na2 * nb2);
    q.kase(S("vec %d", (int)std::floor(4 * std::log10(sc))));
    q.close("norm2", norm2(a), na2, 4 * EPS * na2);
    q.close("norm", norm(a), sqrtl(na2), 4 * EPS * sqrtl(na2));
    q.close("dot", dot(a, b), ab, tol);
    q.ok(dot(a, b) == dot(b, a), "dot_symmetric", "differs");
    vec3<real> x = cross(a, b), y = cross(b, a);
    ld X[3] = {A[1] * Bv[2] - A[2] * Bv[1], A[2] * Bv[0] - A[0] * Bv[2], A[0] * Bv[1] - A[1] * Bv[0]};
    for (int i = 0; i < 3; i++) {
        q.close("cross", x[i], X[i], tol);
        q.ok(x[i] == -y[i], "cross_antisymmetric", "component %d", i);
        q.ok((a + b)[i] == (real)(a[i] + b[i]) && (a - b)[i] == (real)(a[i] - b[i]) && (a * s)[i] == (real)(a[i] * s) && (s * a)[i] == (real)(s * a[i]) && (a / s)[i] == (real)(a[i] / s), "vector_space", "component %d", i);
    }
    q.close("cross_orthogonal", dot(x, a), 0, 16 * EPS * na2 * sqrtl(nb2));
    q.close("lagrange", norm2(x), na2 * nb2 - ab * ab, 32 * EPS * na2 * nb2);
    d = cross(a, cross(b, c));
    ld ac = A[0] * Cv[0] + A[1] * Cv[1] + A[2] * Cv[2], nc2 = Cv[0] * Cv[0] + Cv[1] * Cv[1] + Cv[2] * Cv[2];
    for (int i = 0; i < 3; i++) q.close("bac_cab", d[i], Bv[i] * ac - Cv[i] * ab, 32 * EPS * sqrtl(na2 * nb2 * nc2));
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10);
    long reps = atol(v[2]);
    for (long i = 0; i < reps; i++) { Rng r(seed * 1000003 + i); one(r, i); vec(r, i); }
    return q.finish();
}
