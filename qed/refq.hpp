// Quadruple-precision references in SI with CODATA-2014 constants written out independently of the library.
#pragma once
#include <quadmath.h>
typedef __float128 Fq;
static const Fq qME = 9.10938356e-31, qE0 = 1.6021766208e-19, qC = 299792458., qHB = 1.054571800e-34, qPI = M_PIq, qAL = 0.0072973525664, qEPS0 = 8.854187817e-12;
static Fq qES() { return qME * qME * qC * qC * qC / (qE0 * qHB); }
struct V3 { Fq x, y, z; };
static inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static inline V3 operator*(V3 a, Fq s) { return {a.x * s, a.y * s, a.z * s}; }
static inline Fq dt3(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline V3 cr3(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static inline Fq nm3(V3 a) { return sqrtq(dt3(a, a)); }
// covariant definitions, SI: chi = |F.p| / (E_s m c)
static inline Fq chiref(V3 p, Fq p0, V3 E, V3 B) {
    V3 f = E * p0 + cr3(p, B * qC);
    Fq s = dt3(f, f) - dt3(p, E) * dt3(p, E);
    return sqrtq(s > 0 ? s : Fq(0)) / (qES() * qME * qC);
}
static inline Fq chi_phot_ref(V3 p, V3 E, V3 B) { return chiref(p, nm3(p), E, B); }
static inline Fq chi_lep_ref(V3 p, V3 E, V3 B) { return chiref(p, sqrtq(dt3(p, p) + qME * qME * qC * qC), E, B); }
// a pure Lorentz boost of the fields with velocity b (units of c)
static inline void lboost(V3 b, V3& E, V3& B) {
    Fq b2 = dt3(b, b), g = 1 / sqrtq(1 - b2), k = g * g / (g + 1);
    V3 cB = B * qC, E1 = (E + cr3(b, cB)) * g - b * (k * dt3(b, E)), B1 = (cB - cr3(b, E)) * g - b * (k * dt3(b, cB));
    E = E1; B = B1 * (1 / qC);
}
// units: what the library must be handed for SI values (lambda in metres)
#ifdef PXRMP_USE_NORMALIZED_UNITS
static inline Fq u_p(Fq) { return 1 / (qME * qC); }
static inline Fq u_e(Fq lam) { return qE0 / (qME * qC * (2 * qPI * qC / lam)); }
static inline Fq u_b(Fq lam) { return qE0 / (qME * (2 * qPI * qC / lam)); }
static const bool NORM = true;
#else
static inline Fq u_p(Fq) { return 1; }
static inline Fq u_e(Fq) { return 1; }
static inline Fq u_b(Fq) { return 1; }
static const bool NORM = false;
#endif
static inline V3 unitv(Rng& r) {
    double a = r.g(), b = r.g(), c = r.g(), n = std::sqrt(a * a + b * b + c * c) + 1e-30;
    if (r.n(0, 5) == 0) { int k = (int)r.n(0, 2); double s = r.n(0, 1) ? 1 : -1; return {Fq(k == 0 ? s : 0), Fq(k == 1 ? s : 0), Fq(k == 2 ? s : 0)}; }
    return {a / n, b / n, c / n};
}
static inline V3 perp(Rng& r, V3 n) { for (;;) { V3 u = unitv(r), w = u - n * dt3(u, n); if (nm3(w) > 0.1) return w * (1 / nm3(w)); } }
