// Q02: quantum synchrotron engine. Phase "evt": synthetic tables and scripted random numbers against an independent evaluation;
// phase "int": the engine's own integrals and tables, printed for the reference in checks/Q02.py.
#include "q.hpp"
#include "refq.hpp"
#include "rng_wrapper.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
static std::vector<real> script; static size_t pos_ = 0; static real exps = 1; static int expn = 0;
struct Scripted {
    real unf(real a, real b) { real u = pos_ < script.size() ? script[pos_] : (real)0.25; ++pos_; return a + (b - a) * u; }
    real exp(real l) { ++expn; return exps / l; }
};
typedef quantum_synchrotron_engine<real, Scripted> Eng;
typedef quantum_synchrotron_engine_ctrl<real> Ctl;
typedef quantum_synchrotron_innards<real, Scripted> Inn;
static Scripted theRng;

struct Tab { // synthetic tables with the layout the engine documents: logarithms over log chi
    Ctl ctl; std::vector<real> x1, y1, cx, cp, cv; real lambda;
    Inn inn() {
        Inn i; i.qs_ctrl = ctl; i.lambda = lambda; i.rng_ptr = &theRng;
        i.KKfunc_table_coords_how_many = x1.size(); i.KKfunc_table_coords_ptr = x1.data(); i.KKfunc_table_data_how_many = y1.size(); i.KKfunc_table_data_ptr = y1.data();
        i.cum_distrib_table_coords_1_how_many = cx.size(); i.cum_distrib_table_coords_1_ptr = cx.data(); i.cum_distrib_table_coords_2_how_many = cp.size(); i.cum_distrib_table_coords_2_ptr = cp.data();
        i.cum_distrib_table_data_how_many = cv.size(); i.cum_distrib_table_data_ptr = cv.data();
        return i;
    }
};
static Tab table(Rng& r) {
    Tab t; int n = (int)r.n(2, 40), m = (int)r.n(2, 20), k = (int)r.n(2, 40);
    double lo = r.lg(1e-4, 1e-1), hi = lo * r.lg(10, 1e6), lo2 = r.lg(1e-4, 1e-1), hi2 = lo2 * r.lg(10, 1e6);
    t.ctl.chi_part_min = (real)r.lg(1e-5, 1e-2); t.ctl.chi_part_tdndt_min = (real)lo; t.ctl.chi_part_tdndt_max = (real)hi; t.ctl.chi_part_tdndt_how_many = n;
    t.ctl.chi_part_tem_min = (real)lo2; t.ctl.chi_part_tem_max = (real)hi2; t.ctl.chi_part_tem_how_many = m; t.ctl.prob_tem_how_many = k;
    double a = std::log(lo), b = std::log(hi), v = r.u(-9, 0);
    for (int i = 0; i < n; i++) { t.x1.push_back(i == 0 ? std::log((real)lo) : i == n - 1 ? std::log((real)hi) : (real)(a + (b - a) * i / (n - 1))); t.y1.push_back((real)(v += r.u(0, 1))); }
    a = std::log(lo2); b = std::log(hi2);
    for (int i = 0; i < m; i++) t.cx.push_back(i == 0 ? std::log((real)lo2) : i == m - 1 ? std::log((real)hi2) : (real)(a + (b - a) * i / (m - 1)));
    for (int j = 0; j < k; j++) t.cp.push_back(j == k - 1 ? (real)1 : (real)(j / (double)(k - 1)));
    for (int i = 0; i < m; i++) { double f = -r.u(2, 12); for (int j = 0; j < k; j++) { t.cv.push_back((real)f); f *= r.u(0.5, 0.99); } }
    t.lambda = NORM ? (real)r.lg(1e-7, 1e-5) : (real)1;
    return t;
}
// linear interpolation on the stored nodes, end values outside
static ld lin(const std::vector<real>& x, ld w, std::function<ld(size_t)> y, ld* slope = nullptr) {
    if (w <= x.front()) w = x.front();
    if (w >= x.back()) w = x.back();
    size_t i = 0; while (i + 2 < x.size() && w >= x[i + 1]) ++i;
    ld s = (y(i + 1) - y(i)) / ((ld)x[i + 1] - x[i]);
    if (slope) { *slope = fabsl(s); if (i > 0) *slope = std::max(*slope, fabsl((y(i) - y(i - 1)) / ((ld)x[i] - x[i - 1]))); if (i + 2 < x.size()) *slope = std::max(*slope, fabsl((y(i + 2) - y(i + 1)) / ((ld)x[i + 2] - x[i + 1]))); }
    return y(i) + s * (w - x[i]);
}
// SI constants -> the library's rate unit: 1/s, or 1/(omega of lambda)
static ld coef(ld lam) {
    Fq a = qAL * qME * qC * qC / qHB;                              // alpha m c^2 / hbar, for gamma = 1
    return NORM ? (ld)(a * lam / (2 * qPI * qC)) : (ld)(a * qME * qC * qC); // energy in m c^2, or in joules
}
static ld rate_ref(const Tab& t, ld energy, ld chi, ld& tol) {
    if (energy == 0 || chi == 0) { tol = 0; return 0; }
    ld sl, L = logl(chi), e = lin(t.x1, L, [&](size_t i) { return (ld)t.y1[i]; }, &sl), v = coef(t.lambda) / energy * expl(e);
    ld ym = 0; for (real y : t.y1) ym = std::max(ym, fabsl((ld)y));
    tol = v * (EPS * (20 + 6 * ym) + sl * EPS * (4 + 4 * fabsl(L)) + 2e-9L * (sizeof(real) == 8)); // constants to 1e-12L
    if (sizeof(real) == 8) tol = v * (EPS * (20 + 6 * ym) + sl * EPS * (4 + 4 * fabsl(L)) + 2e-9L);
    return v;
}
// in SI units the reference length has no meaning and any value must do
static real anyl(Rng& r, const Tab& t) { return NORM ? t.lambda : (real)r.lg(1e-7, 10); }
struct Sit { real p[3], f[6]; real chi; ld pc, g, under; V3 P, E, B; }; // under: relative error of |p| from the underflow of p*p (single precision, SI)
static Sit situation(Rng& r, const Tab& t, int kind) {
    Sit s; double lam = NORM ? t.lambda : 1e-6;
    double gam = kind == 1 ? 1 + r.lg(1e-4, 10) : r.lg(10, 1e6), u = std::sqrt(gam * gam - 1);
    double want = kind == 2 ? (double)t.ctl.chi_part_min * r.lg(0.3, 3) : kind == 3 ? (double)t.ctl.chi_part_tdndt_min * r.lg(0.5, 2) : kind == 4 ? (double)t.ctl.chi_part_tem_max * r.lg(0.5, 20) : r.lg(1e-4, 1e3);
    V3 n = unitv(r), E = perp(r, n), B = perp(r, n) * r.u(0, 2);
    if (kind == 5) E = V3{0, 0, 0};
    if (kind == 6) { B = V3{0, 0, 0}; E = unitv(r); }
    V3 P = n * (Fq(u) * qME * qC);
    B = B * (1 / qC);
    Fq c0 = chi_lep_ref(P, E, B);
    if (c0 < 1e-12 * gam / qES()) c0 = 1 / qES();
    Fq k = want / c0; E = E * k; B = B * k;
    V3 a = P * u_p(lam), e = E * u_e(lam), b = B * u_b(lam);
    s.p[0] = (real)a.x; s.p[1] = (real)a.y; s.p[2] = (real)a.z;
    real ff[6] = {(real)e.x, (real)e.y, (real)e.z, (real)b.x, (real)b.y, (real)b.z}; std::copy(ff, ff + 6, s.f);
    s.chi = chi_lepton(s.p[0], s.p[1], s.p[2], ff[0], ff[1], ff[2], ff[3], ff[4], ff[5], t.lambda);
    V3 pp{s.p[0], s.p[1], s.p[2]}; s.P = pp * (1 / u_p(lam)); s.E = V3{ff[0], ff[1], ff[2]} * (1 / u_e(lam)); s.B = V3{ff[3], ff[4], ff[5]} * (1 / u_b(lam));
    s.pc = (ld)nm3(pp) * (NORM ? 1.0L : 299792458.0L);
    s.under = (ld)(std::numeric_limits<real>::denorm_min() * Fq(4) / dt3(pp, pp));
    ld mc2 = NORM ? 1.0L : (ld)(qME * qC * qC); s.g = sqrtl(s.pc * s.pc + mc2 * mc2) / mc2;
    return s;
}
#define A(s) s.p[0], s.p[1], s.p[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5]
static bool same(const char* what, Eng& a, Eng& b, const Sit& s, size_t n) { // two engines must behave alike, bit for bit
    real e = (real)s.pc;
    bool ok = q.ok(a.get_lambda() == b.get_lambda(), "engine_copy", "%s: lambda", what);
    ok &= q.ok(a.interp_dN_dt(e, s.chi) == b.interp_dN_dt(e, s.chi), "engine_copy", "%s: rate differs", what);
    real q1[3] = {s.p[0], s.p[1], s.p[2]}, q2[3] = {s.p[0], s.p[1], s.p[2]}, w = (real)2.5;
    pos_ = 0; auto g = a.generate_photons_and_update_momentum(q1[0], q1[1], q1[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5], w, n);
    pos_ = 0; auto h = b.generate_photons_and_update_momentum(q2[0], q2[1], q2[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5], w, n);
    bool eq = g.size() == h.size() && q1[0] == q2[0] && q1[1] == q2[1] && q1[2] == q2[2];
    for (size_t i = 0; eq && i < g.size(); i++) eq = g[i].first[0] == h[i].first[0] && g[i].first[1] == h[i].first[1] && g[i].first[2] == h[i].first[2] && g[i].second == h[i].second;
    return ok & q.ok(eq, "engine_copy", "%s: photons differ", what);
}
static void evt(Rng& r, long it) {
    Tab t = table(r); Eng eng(t.inn());
    q.ok(eng.get_lambda() == t.lambda, "lambda", "%g", (double)eng.get_lambda());
    // optical depths are the generator's exponential draws
    exps = (real)r.lg(1e-3, 10); expn = 0;
    q.ok(eng.get_optical_depth() == exps && expn == 1, "optical_depth", "draws %d", expn);
    real u = (real)r.u(); if (u < 1) q.close("optical_depth_static", Eng::internal_get_optical_depth(u), -log1pl(-(ld)u), 8 * EPS * (1 - log1pl(-(ld)u)));
    // rates from the table
    for (int k = 0; k < 6; k++) {
        real en = (real)((NORM ? 1. : 8.187e-14) * r.lg(1, 1e6)), ch;
        if (k == 0) ch = t.ctl.chi_part_tdndt_min; else if (k == 1) ch = t.ctl.chi_part_tdndt_max;
        else if (k == 2) ch = (real)((double)t.ctl.chi_part_tdndt_min * r.lg(0.01, 1)); else if (k == 3) ch = (real)((double)t.ctl.chi_part_tdndt_max * r.lg(1, 100));
        else ch = (real)r.lg(t.ctl.chi_part_tdndt_min, t.ctl.chi_part_tdndt_max);
        ld tol, v = rate_ref(t, en, ch, tol);
        real got = eng.interp_dN_dt(en, ch);
        q.ok(got >= 0 && std::isfinite(got), "rate_range", "chi %g: %g", (double)ch, (double)got);
        q.close("rate_table", got, v, tol, S("chi %.6g table %.6g..%.6g", (double)ch, (double)t.ctl.chi_part_tdndt_min, (double)t.ctl.chi_part_tdndt_max).c_str());
    }
    q.ok(eng.interp_dN_dt(0, 1) == 0 && eng.interp_dN_dt(1, 0) == 0, "rate_zero", "energy or chi zero");
    // optical depth evolution
    for (int k = 0; k < 7; k++) {
        Sit s = situation(r, t, k);
        ld t1, t2, r1 = rate_ref(t, s.pc, s.chi, t1), r2 = rate_ref(t, s.g * (NORM ? 1.0L : (ld)(qME * qC * qC)), s.chi, t2); // |p|c or gamma m c^2: both conventions
        if (!(r1 > 0) || !std::isfinite(s.chi) || s.under > 0.1L) continue;
        t1 += r1 * s.under; t2 += r2 * s.under;
        double od0 = r.lg(1e-3, 10); static const double fs[] = {1e-3, 0.5, 0.9, 1.1, 2, 50}; int fi = (int)r.n(0, 5);
        real od = (real)od0, dt = (real)(od0 * fs[fi] / r1);
        if (!(dt > 0) || !std::isfinite(dt)) continue;
        real before = od;
        auto ev = eng.evolve_opt_depth_and_determine_event(A(s), dt, od);
        q.kase(S("evolve kind%d f%d %s", k, fi, s.chi <= t.ctl.chi_part_min ? "below" : s.chi < t.ctl.chi_part_tdndt_min ? "under" : s.chi > t.ctl.chi_part_tdndt_max ? "over" : "in"));
        if (s.chi <= t.ctl.chi_part_min) { q.ok(od == before && !ev.first && ev.second == 0, "below_threshold", "chi %g <= %g: depth %g -> %g", (double)s.chi, (double)t.ctl.chi_part_min, (double)before, (double)od); continue; }
        ld lo = std::min(r1 - t1, r2 - t2), hi = std::max(r1 + t1, r2 + t2), dec = (ld)before - od, sl = 4 * EPS * (fabsl(before) + hi * dt);
        q.ok(dec >= lo * dt - sl && dec <= hi * dt + sl, "depth_decrease", "kind %d chi %g gamma %Lg: decreased by %.9Lg, rate*dt = %.9Lg..%.9Lg", k, (double)s.chi, s.g, dec, lo * dt, hi * dt);
        q.ok(ev.first == (od < 0), "event_iff_crossing", "depth %g, event %d", (double)od, (int)ev.first);
        if (ev.first) {
            ld slack = EPS * 8 * dt + EPS * 8 * before / lo;
            q.ok(ev.second >= before / hi - slack && ev.second <= before / lo + slack, "event_time", "%.9g, crossing at %.9Lg..%.9Lg", (double)ev.second, before / hi, before / lo);
            q.ok(ev.second >= 0 - slack && ev.second <= dt, "event_inside_step", "%.9g of %.9g", (double)ev.second, (double)dt);
        } else q.ok(ev.second == 0, "no_event_time", "%g", (double)ev.second);
        // the GPU-friendly form gives the same
        real od2 = before, edt = -1; bool has = true; lookup_1d<real> tab(t.x1.size(), t.x1.data(), t.y1.data());
        bool rc = Eng::internal_evolve_opt_depth_and_determine_event(A(s), dt, od2, has, edt, anyl(r, t), tab, t.ctl);
        q.ok(rc && od2 == od && has == ev.first && edt == ev.second, "static_evolve", "depth %g vs %g", (double)od2, (double)od);
        lookup_1d<real> none; od2 = before;
        rc = Eng::internal_evolve_opt_depth_and_determine_event(A(s), dt, od2, has, edt, anyl(r, t), none, t.ctl);
        q.ok(!rc && od2 == before && !has, "static_evolve_without_table", "returned %d depth %g", (int)rc, (double)od2);
    }
    // photons
    for (int k = 0; k < 7; k++) {
        Sit s = situation(r, t, k);
        if (s.chi == 0 || !std::isfinite(s.chi) || s.under > 0.1L) continue; // never an event
        size_t n = (size_t)(r.n(0, 3) ? r.n(1, 8) : 1), np = t.cp.size();
        script.clear();
        for (size_t i = 0; i < n; i++) { double v; switch (r.n(0, 5)) { case 0: v = 0; break; case 1: v = 1 - EPS / 2; break; case 2: v = t.cp[r.n(0, np - 2)]; break; case 3: v = r.lg(1e-9, 1); break; default: v = r.u(); } real w = (real)v; if (w >= 1) w = (real)(1 - EPS / 2); script.push_back(w); }
        pos_ = 0;
        real p[3] = {s.p[0], s.p[1], s.p[2]}, w = (real)r.lg(1e-3, 1e12);
        auto ph = eng.generate_photons_and_update_momentum(p[0], p[1], p[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5], w, n);
        const char* where = s.chi < t.ctl.chi_part_tem_min ? "under" : s.chi > t.ctl.chi_part_tem_max ? "over" : "in";
        q.kase(S("photons kind%d n%d %s", k, (int)n, where));
        q.ok(pos_ == n, "photon_draws", "%zu draws for %zu photons", pos_, n);
        if (!q.ok(ph.size() == n, "photon_number", "%zu of %zu", ph.size(), n)) continue;
        ld mc = NORM ? 1.0L : (ld)(qME * qC), pn = sqrtl((ld)s.p[0] * s.p[0] + (ld)s.p[1] * s.p[1] + (ld)s.p[2] * s.p[2]), u = pn / mc, gm1 = u * u / (sqrtl(1 + u * u) + 1), L = logl((ld)s.chi);
        ld rest[3] = {s.p[0], s.p[1], s.p[2]};
        for (size_t i = 0; i < n; i++) {
            ld pr = script[i]; size_t j = 0; while (j + 2 < np && pr >= t.cp[j + 1]) ++j;
            ld sl1, sl2, l = expl(lin(t.cx, L, [&](size_t a) { return (ld)t.cv[a * np + j]; }, &sl1)), rr = expl(lin(t.cx, L, [&](size_t a) { return (ld)t.cv[a * np + j + 1]; }, &sl2));
            ld dp = (ld)t.cp[j + 1] - t.cp[j], fr = l + (pr - t.cp[j]) * (rr - l) / dp;
            ld ft = 40 * EPS * std::max(l, rr) * (1 + std::max(fabsl(logl(l)), fabsl(logl(rr)))) + std::max(l * sl1, rr * sl2) * EPS * (4 + 8 * fabsl(L)) + fabsl(rr - l) * EPS * 8 / dp;
            ld tol = (ft * gm1 + fr * EPS * (8 * gm1 + 4)) * mc; // gamma - 1 to an ulp of gamma
            for (int c = 0; c < 3; c++) {
                ld want = fr * gm1 * mc * s.p[c] / pn;
                q.close("photon_momentum", ph[i].first[c], want, tol + (2e-9L + 2 * s.under) * fabsl(want), S("kind %d chi %g (%s) draw %.9g", k, (double)s.chi, where, (double)script[i]).c_str());
                rest[c] -= (ld)ph[i].first[c] / n;
            }
            q.close("photon_weight", ph[i].second, (ld)w / n, 4 * EPS * w / n);
            ld x = ph[i].first[0], y = ph[i].first[1], z = ph[i].first[2], m = sqrtl(x * x + y * y + z * z);
            q.ok(m <= gm1 * mc * (1 + 1e-3L + 2 * s.under) + 8 * EPS * mc, "photon_energy", "photon %.9Lg of the kinetic %.9Lg", m, gm1 * mc);
            if (m > 0) { ld dx = x / m - s.p[0] / pn, dy = y / m - s.p[1] / pn, dz = z / m - s.p[2] / pn; q.close("photon_parallel", sqrtl(dx * dx + dy * dy + dz * dz), 0, 16 * EPS + (m < 1e-30L ? 1 : 0) + s.under); }
            if (s.g > 100 && k != 6 && m > 1e-6L * mc && s.chi > 0.05 * (double)(s.g * (nm3(s.E) + qC * nm3(s.B)) / qES())) {
                V3 pp = V3{ph[i].first[0], ph[i].first[1], ph[i].first[2]} * (NORM ? 1 / u_p(1) : Fq(1));
                Fq cp = chi_phot_ref(pp, s.E, s.B);
                q.ok(cp <= (Fq)s.chi * 1.01, "photon_chi", "photon %g lepton %g", (double)cp, (double)s.chi);
            }
        }
        for (int c = 0; c < 3; c++) q.close("lepton_momentum", p[c], rest[c], (n + 2) * 2 * EPS * pn, "after emission");
        // static form
        std::vector<real> g(4 * n); real p2[3] = {s.p[0], s.p[1], s.p[2]}; lookup_2d<real> tab(t.cx.size(), t.cx.data(), t.cp.size(), t.cp.data(), t.cv.data());
        bool rc = Eng::internal_generate_photons_and_update_momentum(p2[0], p2[1], p2[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5], w, n, g.data(), g.data() + n, g.data() + 2 * n, g.data() + 3 * n, anyl(r, t), tab, t.ctl, script.data());
        bool eq = rc && p2[0] == p[0] && p2[1] == p[1] && p2[2] == p[2];
        for (size_t i = 0; i < n; i++) eq = eq && g[i] == ph[i].first[0] && g[n + i] == ph[i].first[1] && g[2 * n + i] == ph[i].first[2] && g[3 * n + i] == ph[i].second;
        q.ok(eq, "static_photons", "differ from the member's");
        if (k == 0) {
            Eng cp(eng); same("copy", eng, cp, s, n);
            Eng mv(std::move(cp)); same("move", eng, mv, s, n);
            auto in = eng.export_innards(); Eng ii(in); same("innards", eng, ii, s, n);
            if (it % 8 == 0) {
                eng.write_dN_dt_table("qs_a.bin"); eng.write_cumulative_phot_em_table("qs_b.bin");
                Eng rd(Scripted{}, t.lambda, t.ctl); rd.read_dN_dt_table("qs_a.bin"); rd.read_cumulative_phot_em_table("qs_b.bin");
                same("files", eng, rd, s, n); std::remove("qs_a.bin"); std::remove("qs_b.bin");
            }
            if (NORM) { Eng c2(eng); c2.set_lambda(t.lambda * 2); q.ok(c2.get_lambda() == t.lambda * 2, "set_lambda", "%g", (double)c2.get_lambda()); }
            if (NORM) { Eng c3(Scripted{}); q.ok(c3.get_lambda() == 1, "default_lambda", "%g", (double)c3.get_lambda()); }
            else { Eng c2(Scripted{}, (real)3, t.ctl); c2.set_lambda(5); q.ok(c2.get_lambda() == 1, "set_lambda", "SI lambda %g", (double)c2.get_lambda()); }
        }
    }
}
static void integrals(Rng& r, int part, int nr, int nc, int rows, int probs) {
    real lam = NORM ? (real)0.8e-6 : (real)1;
    Ctl c; c.chi_part_tdndt_min = (real)0.002; c.chi_part_tdndt_max = (real)150; c.chi_part_tdndt_how_many = 6;
    c.chi_part_tem_min = (real)0.01; c.chi_part_tem_max = (real)50; c.chi_part_tem_how_many = rows; c.prob_tem_how_many = probs;
    Eng e(Scripted{}, lam, c);
    real en = (real)(NORM ? 100. : 8.187e-12); // about 100 m c^2
    if (part == 0) {
        for (int i = 0; i < nr; i++) { real chi = (real)r.lg(1e-3, 200); printf("R rate %.17g %.17g %.17g %.17g\n", (double)lam, (double)en, (double)chi, (double)e.compute_dN_dt(en, chi)); q.kase(S("rate%d", (int)std::floor(2 * std::log10((double)chi)))); }
        for (int i = 0; i < nc; i++) { real chi = (real)r.lg(1e-3, 200), f = (real)(i % 3 ? r.lg(1e-4, 1) : r.u()); printf("R cum %.17g %.17g %.17g\n", (double)chi, (double)((real)(chi * f) / chi), (double)e.compute_cumulative_phot_em(chi * f, chi)); q.kase(S("cum%d", i)); }
        q.ok(e.compute_dN_dt(0, 1) == 0 && e.compute_dN_dt(1, 0) == 0, "rate_zero", "computed");
        // without a table the rate is computed
        Tab t; t.ctl = c; t.lambda = lam; Sit s = situation(r, t, 0); real od = 5, b = od; if (!std::isfinite(s.chi)) return;
        real dn = e.compute_dN_dt((real)s.pc, s.chi), dt = (real)(7 / (double)dn);
        if (s.chi > c.chi_part_min) { auto ev = e.evolve_opt_depth_and_determine_event(A(s), dt, od); q.close("fallback_depth", od, (ld)b - 7, 1e-4 + 64 * EPS * s.g); q.ok(ev.first, "fallback_event", "depth %g", (double)od); q.close("fallback_time", ev.second, 5.0L / 7 * dt, 1e-3 * dt); }
    } else if (part == 1) {
        e.compute_dN_dt_lookup_table();
        auto in = e.export_innards();
        for (size_t i = 0; i < in.KKfunc_table_coords_how_many; i++) printf("R kk %.17g %.17g\n", (double)in.KKfunc_table_coords_ptr[i], (double)in.KKfunc_table_data_ptr[i]);
        for (double x : {0.002, 150.}) q.close("table_equals_computed", e.interp_dN_dt(en, (real)x), e.compute_dN_dt(en, (real)x), (ld)e.compute_dN_dt(en, (real)x) * 1e-3, "at the ends");
        q.ok(e.interp_dN_dt(en, (real)1e-4) == e.interp_dN_dt(en, c.chi_part_tdndt_min) && e.interp_dN_dt(en, (real)1e4) == e.interp_dN_dt(en, c.chi_part_tdndt_max), "table_ends", "not kept outside");
        q.kase("table1d");
    } else {
        e.compute_cumulative_phot_em_table();
        auto in = e.export_innards();
        for (size_t i = 0; i < in.cum_distrib_table_coords_1_how_many; i++) for (size_t j = 0; j < in.cum_distrib_table_coords_2_how_many; j++)
            printf("R em %.17g %.17g %zu %zu %.17g\n", (double)in.cum_distrib_table_coords_1_ptr[i], (double)in.cum_distrib_table_coords_2_ptr[j], j, in.cum_distrib_table_coords_2_how_many, (double)in.cum_distrib_table_data_ptr[i * in.cum_distrib_table_coords_2_how_many + j]);
        q.kase("table2d");
    }
}
int main(int c, char** v) {
    Rng r(atol(v[1])); std::string ph = v[2];
    if (ph == "evt") for (long i = 0; i < atol(v[3]); i++) evt(r, i);
    else integrals(r, atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]), atoi(v[7]));
    return q.finish();
}
