// Q03: Breit-Wheeler engine; phases as in qs.cpp.
#include "q.hpp"
#include "refq.hpp"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
typedef long double ld;
static std::vector<real> script; static size_t pos_ = 0; static real exps = 1; static int expn = 0;
struct Scripted {
    real unf(real a, real b) { real u = pos_ < script.size() ? script[pos_] : (real)0.25; ++pos_; return a + (b - a) * u; }
    real exp(real l) { ++expn; return exps / l; }
};
typedef breit_wheeler_engine<real, Scripted> Eng;
typedef breit_wheeler_engine_ctrl<real> Ctl;
typedef breit_wheeler_innards<real, Scripted> Inn;
static Scripted theRng;
struct Tab {
    Ctl ctl; std::vector<real> x1, y1, cx, cf, cv; real lambda;
    Inn inn() {
        Inn i; i.bw_ctrl = ctl; i.lambda = lambda; i.rng_ptr = &theRng;
        i.TTfunc_table_coords_how_many = x1.size(); i.TTfunc_table_coords_ptr = x1.data(); i.TTfunc_table_data_how_many = y1.size(); i.TTfunc_table_data_ptr = y1.data();
        i.cum_distrib_table_coords_1_how_many = cx.size(); i.cum_distrib_table_coords_1_ptr = cx.data(); i.cum_distrib_table_coords_2_how_many = cf.size(); i.cum_distrib_table_coords_2_ptr = cf.data();
        i.cum_distrib_table_data_how_many = cv.size(); i.cum_distrib_table_data_ptr = cv.data();
        return i;
    }
};
static real flog(double v) { return std::log(std::max((real)v, std::numeric_limits<real>::min())); }
static Tab table(Rng& r) {
    Tab t; int n = (int)r.n(2, 40), m = (int)r.n(2, 20), k = (int)r.n(3, 40);
    double lo = r.lg(1e-2, 1), hi = lo * r.lg(10, 1e4), lo2 = r.lg(1e-3, 1), hi2 = lo2 * r.lg(10, 1e6);
    t.ctl.chi_phot_min = (real)r.lg(1e-4, 1e-2); t.ctl.chi_phot_tdndt_min = (real)lo; t.ctl.chi_phot_tdndt_max = (real)hi; t.ctl.chi_phot_tdndt_how_many = n;
    t.ctl.chi_phot_tpair_min = (real)lo2; t.ctl.chi_phot_tpair_max = (real)hi2; t.ctl.chi_phot_tpair_how_many = m; t.ctl.chi_frac_tpair_how_many = k;
    double a = std::log(lo), b = std::log(hi), v = r.u(-40, 0);
    for (int i = 0; i < n; i++) { t.x1.push_back(i == 0 ? std::log((real)lo) : i == n - 1 ? std::log((real)hi) : (real)(a + (b - a) * i / (n - 1))); t.y1.push_back((real)(v += r.u(0, 2))); }
    a = std::log(lo2); b = std::log(hi2);
    for (int i = 0; i < m; i++) t.cx.push_back(i == 0 ? std::log((real)lo2) : i == m - 1 ? std::log((real)hi2) : (real)(a + (b - a) * i / (m - 1)));
    for (int j = 0; j < k; j++) t.cf.push_back(j == k - 1 ? (real)0.5 : (real)(0.5 * j / (k - 1)));
    for (int i = 0; i < m; i++) { double s = r.lg(0.1, 6); for (int j = 0; j < k; j++) { double c = j == 0 ? 0 : j == k - 1 ? 0.5 : 0.5 * std::exp(s * (1 - (k - 1.) / j)); t.cv.push_back(flog(c)); } }
    t.lambda = NORM ? (real)r.lg(1e-7, 1e-5) : (real)1;
    return t;
}
static ld lin(const std::vector<real>& x, ld w, std::function<ld(size_t)> y, ld* slope = nullptr) {
    if (w <= x.front()) w = x.front();
    if (w >= x.back()) w = x.back();
    size_t i = 0; while (i + 2 < x.size() && w >= x[i + 1]) ++i;
    ld s = (y(i + 1) - y(i)) / ((ld)x[i + 1] - x[i]);
    if (slope) { *slope = fabsl(s); if (i > 0) *slope = std::max(*slope, fabsl((y(i) - y(i - 1)) / ((ld)x[i] - x[i - 1]))); if (i + 2 < x.size()) *slope = std::max(*slope, fabsl((y(i + 2) - y(i + 1)) / ((ld)x[i + 2] - x[i + 1]))); }
    return y(i) + s * (w - x[i]);
}
static ld coef(ld lam) { Fq a = qAL * qME * qC * qC / qHB; return NORM ? (ld)(a * lam / (2 * qPI * qC)) : (ld)(a * qME * qC * qC); }
static ld rate_ref(const Tab& t, ld energy, real chir, ld& tol) {
    tol = 0; ld chi = chir; if (energy == 0 || chi == 0) return 0;
    ld T, dT;
    if (chir <= t.ctl.chi_phot_tdndt_min) { // Erber: 0.16 chi K_1/3(4/(3 chi))^2, leading terms
        ld e = 8 / (3 * chi); T = 0.16L * 3 * (ld)qPI / 8 * chi * chi * expl(-e); dT = T * EPS * (10 + 3 * e) + std::numeric_limits<real>::min();
    } else if (chir >= t.ctl.chi_phot_tdndt_max) { ld g = tgammal(1 / 3.0L) / 2; T = 0.16L * chi * g * g * powl(1.5L * chi, 2 / 3.0L); dT = T * 20 * EPS; }
    else { ld sl, L = logl(chi), e = lin(t.x1, L, [&](size_t i) { return (ld)t.y1[i]; }, &sl), ym = 0; for (real y : t.y1) ym = std::max(ym, fabsl((ld)y)); T = expl(e); dT = T * (EPS * (20 + 6 * ym) + sl * EPS * (4 + 4 * fabsl(L))); }
    ld c = coef(t.lambda) / (energy * chi);
    tol = c * (dT + T * (8 * EPS + 1e-12L)) + 4 * std::numeric_limits<real>::denorm_min();
    return c * T;
}
// in SI units the reference length has no meaning and any value must do
static real anyl(Rng& r, const Tab& t) { return NORM ? t.lambda : (real)r.lg(1e-7, 10); }
struct Sit { real p[3], f[6]; real chi; ld pc, g, under; V3 P, E, B; };
static Sit situation(Rng& r, const Tab& t, int kind) {
    Sit s; double lam = NORM ? t.lambda : 1e-6;
    double gam = kind == 1 ? r.u(1.5, 3) : kind == 7 ? 2 * (1 + r.lg(1e-6, 1e-1)) : r.lg(10, 1e6);
    double want = kind == 2 ? (double)t.ctl.chi_phot_min * r.lg(0.3, 3) : kind == 3 ? (double)t.ctl.chi_phot_tdndt_min * r.lg(0.5, 2) : kind == 4 ? (double)t.ctl.chi_phot_tpair_max * r.lg(0.5, 20) : r.lg(1e-2, 1e3);
    V3 n = unitv(r), E = perp(r, n), B = perp(r, n) * r.u(0, 2);
    if (kind == 5) E = V3{0, 0, 0};
    if (kind == 6) { B = V3{0, 0, 0}; E = unitv(r); }
    V3 P = n * (Fq(gam) * qME * qC);
    B = B * (1 / qC);
    Fq c0 = chi_phot_ref(P, E, B);
    if (c0 < 1e-9 * gam / qES()) c0 = 1 / qES();
    Fq k = want / c0; E = E * k; B = B * k;
    V3 a = P * u_p(lam), e = E * u_e(lam), b = B * u_b(lam);
    s.p[0] = (real)a.x; s.p[1] = (real)a.y; s.p[2] = (real)a.z;
    real ff[6] = {(real)e.x, (real)e.y, (real)e.z, (real)b.x, (real)b.y, (real)b.z}; std::copy(ff, ff + 6, s.f);
    s.chi = chi_photon(s.p[0], s.p[1], s.p[2], ff[0], ff[1], ff[2], ff[3], ff[4], ff[5], t.lambda);
    V3 pp{s.p[0], s.p[1], s.p[2]}; s.P = pp * (1 / u_p(lam)); s.E = V3{ff[0], ff[1], ff[2]} * (1 / u_e(lam)); s.B = V3{ff[3], ff[4], ff[5]} * (1 / u_b(lam));
    s.pc = (ld)nm3(pp) * (NORM ? 1.0L : 299792458.0L);
    s.under = (ld)(std::numeric_limits<real>::denorm_min() * Fq(4) / dt3(pp, pp));
    s.g = (ld)(nm3(pp) / (NORM ? Fq(1) : qME * qC));
    return s;
}
#define A(s) s.p[0], s.p[1], s.p[2], s.f[0], s.f[1], s.f[2], s.f[3], s.f[4], s.f[5]
typedef decltype(std::declval<Eng&>().generate_breit_wheeler_pairs(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)) Res;
static bool eqr(const Res& g, const Res& h) {
    for (int k = 0; k < 2; k++) { if (g[k].size() != h[k].size()) return false; for (size_t i = 0; i < g[k].size(); i++) { for (int c = 0; c < 3; c++) if (g[k][i].first[c] != h[k][i].first[c]) return false; if (g[k][i].second != h[k][i].second) return false; } }
    return true;
}
static bool same(const char* what, Eng& a, Eng& b, const Sit& s, size_t n) {
    real e = (real)s.pc;
    bool ok = q.ok(a.get_lambda() == b.get_lambda(), "engine_copy", "%s: lambda", what);
    ok &= q.ok(a.interp_dN_dt(e, s.chi) == b.interp_dN_dt(e, s.chi), "engine_copy", "%s: rate differs", what);
    pos_ = 0; auto g = a.generate_breit_wheeler_pairs(A(s), (real)2.5, n);
    pos_ = 0; auto h = b.generate_breit_wheeler_pairs(A(s), (real)2.5, n);
    return ok & q.ok(eqr(g, h), "engine_copy", "%s: pairs differ", what);
}
static void evt(Rng& r, long it) {
    Tab t = table(r); Eng eng(t.inn());
    q.ok(eng.get_lambda() == t.lambda, "lambda", "%g", (double)eng.get_lambda());
    exps = (real)r.lg(1e-3, 10); expn = 0;
    q.ok(eng.get_optical_depth() == exps && expn == 1, "optical_depth", "draws %d", expn);
    real u = (real)r.u(); if (u < 1) q.close("optical_depth_static", Eng::internal_get_optical_depth(u), -log1pl(-(ld)u), 8 * EPS * (1 - log1pl(-(ld)u)));
    for (int k = 0; k < 6; k++) {
        real en = (real)((NORM ? 1. : 8.187e-14) * r.lg(2, 1e6)), ch;
        if (k == 0) ch = t.ctl.chi_phot_tdndt_min; else if (k == 1) ch = t.ctl.chi_phot_tdndt_max;
        else if (k == 2) ch = (real)((double)t.ctl.chi_phot_tdndt_min * r.lg(0.01, 1)); else if (k == 3) ch = (real)((double)t.ctl.chi_phot_tdndt_max * r.lg(1, 100));
        else ch = (real)r.lg(t.ctl.chi_phot_tdndt_min, t.ctl.chi_phot_tdndt_max);
        ld tol, v = rate_ref(t, en, ch, tol);
        if (v > 0.1L * std::numeric_limits<real>::max()) continue;
        real got = eng.interp_dN_dt(en, ch);
        q.ok(got >= 0 && std::isfinite(got), "rate_range", "chi %g: %g", (double)ch, (double)got);
        q.close("rate_table", got, v, tol, S("chi %.6g table %.6g..%.6g", (double)ch, (double)t.ctl.chi_phot_tdndt_min, (double)t.ctl.chi_phot_tdndt_max).c_str());
    }
    q.ok(eng.interp_dN_dt(0, 1) == 0 && eng.interp_dN_dt(1, 0) == 0, "rate_zero", "energy or chi zero");
    for (int k = 0; k < 8; k++) {
        Sit s = situation(r, t, k);
        ld t1, r1 = rate_ref(t, s.pc, s.chi, t1), mc2 = NORM ? 1.0L : (ld)(qME * qC * qC);
        if (!std::isfinite(s.chi) || s.under > 0.1L || fabsl(s.g - 2) < 2 * (4 * EPS + 2e-8L + s.under)) continue;
        t1 += r1 * s.under;
        double od0 = r.lg(1e-3, 10); static const double fs[] = {1e-3, 0.5, 0.9, 1.1, 2, 50}; int fi = (int)r.n(0, 5);
        real od = (real)od0, dt = r1 > 0 ? (real)(od0 * fs[fi] / r1) : (real)1;
        bool below = s.chi <= t.ctl.chi_phot_min || s.pc < 2 * mc2;
        if (below && !(r1 > 1e-30L)) dt = 1;
        if (!(dt > 0) || !std::isfinite(dt)) continue;
        real before = od;
        auto ev = eng.evolve_opt_depth_and_determine_event(A(s), dt, od);
        q.kase(S("evolve kind%d f%d %s", k, fi, below ? "below" : s.chi < t.ctl.chi_phot_tdndt_min ? "under" : s.chi > t.ctl.chi_phot_tdndt_max ? "over" : "in"));
        if (below) { q.ok(od == before && !ev.first && ev.second == 0, "below_threshold", "chi %g (min %g) gamma %Lg: depth %g -> %g", (double)s.chi, (double)t.ctl.chi_phot_min, s.g, (double)before, (double)od); continue; }
        ld lo = std::max(r1 - t1, 0.0L), hi = r1 + t1, dec = (ld)before - od, sl = 4 * EPS * (fabsl(before) + hi * dt);
        q.ok(dec >= lo * dt - sl && dec <= hi * dt + sl, "depth_decrease", "kind %d chi %g gamma %Lg: decreased by %.9Lg, rate*dt = %.9Lg..%.9Lg", k, (double)s.chi, s.g, dec, lo * dt, hi * dt);
        q.ok(ev.first == (od < 0), "event_iff_crossing", "depth %g, event %d", (double)od, (int)ev.first);
        if (ev.first) {
            ld slack = EPS * 8 * dt + EPS * 8 * before / lo;
            q.ok(ev.second >= before / hi - slack && ev.second <= before / lo + slack, "event_time", "%.9g, crossing at %.9Lg..%.9Lg", (double)ev.second, before / hi, before / lo);
            q.ok(ev.second >= 0 - slack && ev.second <= dt, "event_inside_step", "%.9g of %.9g", (double)ev.second, (double)dt);
        } else q.ok(ev.second == 0, "no_event_time", "%g", (double)ev.second);
        real od2 = before, edt = -1; bool has = true; lookup_1d<real> tab(t.x1.size(), t.x1.data(), t.y1.data());
        bool rc = Eng::internal_evolve_opt_depth_and_determine_event(A(s), dt, od2, has, edt, anyl(r, t), tab, t.ctl);
        q.ok(rc && od2 == od && has == ev.first && edt == ev.second, "static_evolve", "depth %g vs %g", (double)od2, (double)od);
        lookup_1d<real> none; od2 = before;
        rc = Eng::internal_evolve_opt_depth_and_determine_event(A(s), dt, od2, has, edt, anyl(r, t), none, t.ctl);
        q.ok(!rc && od2 == before && !has, "static_evolve_without_table", "returned %d depth %g", (int)rc, (double)od2);
    }
    for (int k = 0; k < 8; k++) {
        Sit s = situation(r, t, k);
        if (s.chi == 0 || !std::isfinite(s.chi) || s.under > 0.1L || s.g <= 2 * (1 + 8 * EPS + 2e-8L + s.under)) continue; // never an event
        size_t n = (size_t)(r.n(0, 3) ? r.n(1, 8) : 1), nf = t.cf.size();
        // at a node of the table now and then, by a photon whose chi is on it
        script.clear();
        for (size_t i = 0; i < n; i++) { double v; switch (r.n(0, 6)) { case 0: v = 0; break; case 1: v = 1 - EPS / 2; break; case 2: v = 0.5; break; case 3: v = 0.5 - EPS / 4; break; case 4: v = r.lg(1e-9, 0.5) + 0.5 * r.n(0, 1); break; default: v = r.u(); } real w = (real)v; if (w >= 1) w = (real)(1 - EPS / 2); script.push_back(w); }
        pos_ = 0; real w = (real)r.lg(1e-3, 1e12);
        Res res = eng.generate_breit_wheeler_pairs(A(s), w, n);
        const char* where = s.chi < t.ctl.chi_phot_tpair_min ? "under" : s.chi > t.ctl.chi_phot_tpair_max ? "over" : "in";
        q.kase(S("pairs kind%d n%d %s", k, (int)n, where));
        q.ok(pos_ == n, "pair_draws", "%zu draws for %zu pairs", pos_, n);
        if (!q.ok(res[0].size() == n && res[1].size() == n, "pair_number", "%zu of %zu", res[0].size(), n)) continue;
        ld mc = NORM ? 1.0L : (ld)(qME * qC), pn = s.g * mc, L = logl((ld)s.chi);
        auto col = [&](size_t j, ld* sl = nullptr) { return expl(lin(t.cx, L, [&](size_t a) { return (ld)t.cv[a * nf + j]; }, sl)); };
        for (size_t i = 0; i < n; i++) {
            ld pr = script[i]; bool inv = pr >= 0.5L; if (inv) pr -= 0.5L;
            size_t j = 0; while (j + 2 < nf && pr >= col(j + 1)) ++j; // interval of the cumulative distribution
            ld s1 = 0, s2 = 0, l = j ? col(j, &s1) : 0, h = col(j + 1, &s2), df = (ld)t.cf[j + 1] - t.cf[j], fr = t.cf[j] + (pr - l) * df / (h - l);
            // what rounding of the two columns does to the fraction (an error of a column at its node is continuous across the node)
            ld el = l * (20 * EPS * (1 + fabsl(logl(l + 1e-300L))) + s1 * EPS * (4 + 8 * fabsl(L))), eh = h * (20 * EPS * (1 + fabsl(logl(h))) + s2 * EPS * (4 + 8 * fabsl(L)));
            ld nb = df / (h - l); if (j > 0) nb = std::max(nb, ((ld)t.cf[j] - t.cf[j - 1]) / (l - (j > 1 ? col(j - 1) : 0))); if (j + 2 < nf) nb = std::max(nb, ((ld)t.cf[j + 2] - t.cf[j + 1]) / (col(j + 2) - h));
            ld ft = std::min(0.5L, (el + eh + EPS) * nb + 8 * EPS);
            ld fe = inv ? 1 - fr : fr, fp = 1 - fe;
            ld km = s.g - 2, at = 8 * EPS * (s.g + 2) + (1e-12L + 2 * s.under) * s.g;
            ld gg[2], F[2] = {fe, fp};
            for (int a = 0; a < 2; a++) {
                ld x = res[a][i].first[0], y = res[a][i].first[1], z = res[a][i].first[2], m = sqrtl(x * x + y * y + z * z);
                ld u = m / mc; gg[a] = sqrtl(1 + u * u);
                if (!q.ok(std::isfinite((double)m), "pair_finite", "%s momentum %Lg (kind %d chi %g draw %.9g)", a ? "positron" : "electron", m, k, (double)s.chi, (double)script[i])) continue;
                // the kinetic energy shared by the tabulated fraction; p/mc below sqrt(eps) is lost in gamma
                q.close("pair_share", gg[a], 1 + F[a] * km, at + ft * km, S("%s kind %d chi %g (%s) draw %.9g", a ? "positron" : "electron", k, (double)s.chi, where, (double)script[i]).c_str());
                if (m > 0) { ld dx = x / m - s.p[0] / pn, dy = y / m - s.p[1] / pn, dz = z / m - s.p[2] / pn; q.close("pair_parallel", sqrtl(dx * dx + dy * dy + dz * dz), 0, 16 * EPS + 4e-8L * 0 + s.under + (sizeof(real) == 4 && !NORM ? 4e-45L / (m + 1e-60L) * 4 : 0)); }
                q.close("pair_weight", res[a][i].second, (ld)w / n, 4 * EPS * w / n);
            }
            q.close("pair_energy", gg[0] + gg[1], s.g, at, S("kind %d chi %g draw %.9g", k, (double)s.chi, (double)script[i]).c_str());
        }
        std::vector<real> g(8 * n); real* G = g.data(); lookup_2d<real> tab(t.cx.size(), t.cx.data(), t.cf.size(), t.cf.data(), t.cv.data());
        bool rc = Eng::internal_generate_breit_wheeler_pairs(A(s), w, n, G, G + n, G + 2 * n, G + 3 * n, G + 4 * n, G + 5 * n, G + 6 * n, G + 7 * n, anyl(r, t), tab, t.ctl, script.data()), eq = rc;
        for (size_t i = 0; i < n; i++) for (int a = 0; a < 2; a++) { for (int c = 0; c < 3; c++) eq = eq && (g[(3 * a + c) * n + i] == res[a][i].first[c]); eq = eq && g[(6 + a) * n + i] == res[a][i].second; }
        q.ok(eq, "static_pairs", "differ from the member's");
        if (k == 0) {
            Eng cp(eng); same("copy", eng, cp, s, n);
            Tab o = table(r); Eng as(o.inn()); as = eng; same("assignment", eng, as, s, n);
            Eng& self = as; as = self; same("self-assignment", eng, as, s, n);
            Eng mv(std::move(cp)); same("move", eng, mv, s, n);
            auto in = eng.export_innards(); Eng ii(in); same("innards", eng, ii, s, n);
            if (it % 8 == 0) {
                eng.write_dN_dt_table("bw_a.bin"); eng.write_cumulative_pair_table("bw_b.bin");
                Eng rd(Scripted{}, t.lambda, t.ctl); rd.read_dN_dt_table("bw_a.bin"); rd.read_cumulative_pair_table("bw_b.bin");
                same("files", eng, rd, s, n); std::remove("bw_a.bin"); std::remove("bw_b.bin");
            }
            if (NORM) { Eng c2(eng); c2.set_lambda(t.lambda * 2); q.ok(c2.get_lambda() == t.lambda * 2, "set_lambda", "%g", (double)c2.get_lambda()); }
            if (NORM) { Eng c3(Scripted{}); q.ok(c3.get_lambda() == 1, "default_lambda", "%g", (double)c3.get_lambda()); }
            else { Eng c2(Scripted{}, (real)3, t.ctl); c2.set_lambda(5); q.ok(c2.get_lambda() == 1, "set_lambda", "SI lambda %g", (double)c2.get_lambda()); }
        }
    }
}
static void integrals(Rng& r, int part, int nr, int nc, int rows, int fracs) {
    real lam = NORM ? (real)0.8e-6 : (real)1;
    Ctl c; c.chi_phot_tdndt_min = (real)0.02; c.chi_phot_tdndt_max = (real)300; c.chi_phot_tdndt_how_many = 8;
    c.chi_phot_tpair_min = (real)(sizeof(real) == 4 ? 0.01 : 0.02); c.chi_phot_tpair_max = (real)300; c.chi_phot_tpair_how_many = rows; c.chi_frac_tpair_how_many = fracs;
    Eng e(Scripted{}, lam, c);
    real en = (real)(NORM ? 100. : 8.187e-12);
    if (part == 0) {
        for (int i = 0; i < nr; i++) { real chi = (real)(i % 4 ? r.lg(0.1, 500) : r.lg(0.02, 0.1)); real v = e.compute_dN_dt(en, chi); printf("R rate %.17g %.17g %.17g %.17g\n", (double)lam, (double)en, (double)chi, (double)v); q.ok(v >= 0 && std::isfinite(v), "rate_range", "computed %g at chi %g", (double)v, (double)chi); q.kase(S("rate%d", (int)std::floor(4 * std::log10((double)chi)))); }
        for (double x : {1e-5, 1e-3, 5e-3, 1e3, 1e4}) { real v = e.compute_dN_dt(en, (real)x); q.ok(v >= 0 && std::isfinite(v), "rate_range", "computed %g at chi %g", (double)v, x); }
        for (int i = 0; i < nc; i++) { real chi = (real)r.lg(0.1, 500), f = (real)(r.u(0.02, 0.5)); real x = chi * f; printf("R cum %.17g %.17g %.17g\n", (double)chi, (double)x / (double)chi, (double)e.compute_cumulative_pair(chi, x)); q.kase(S("cum%d", i)); }
        q.ok(e.compute_dN_dt(0, 1) == 0 && e.compute_dN_dt(1, 0) == 0, "rate_zero", "computed");
        for (int k = 0; k < 4; k++) {
            Tab t; t.ctl = c; t.lambda = lam; Sit s = situation(r, t, 0); real od = 5, b = od; if (!std::isfinite(s.chi)) continue;
            real dn = e.compute_dN_dt((real)s.pc, s.chi), dt = (real)(7 / (double)dn);
            if (s.chi > c.chi_phot_min && dn > 0 && std::isfinite(dt)) { auto ev = e.evolve_opt_depth_and_determine_event(A(s), dt, od); ld tl = 200 * EPS * (1 + 8 / (3 * (ld)s.chi)) + 1e-6 + s.under; q.close("fallback_depth", od, (ld)b - 7, 7 * tl); q.ok(ev.first, "fallback_event", "depth %g", (double)od); q.close("fallback_time", ev.second, 5.0L / 7 * dt, dt * tl); }
        }
    } else {
        e.compute_dN_dt_lookup_table();
        auto in = e.export_innards();
        for (size_t i = 0; i < in.TTfunc_table_coords_how_many; i++) printf("R tt %.17g %.17g\n", (double)in.TTfunc_table_coords_ptr[i], (double)in.TTfunc_table_data_ptr[i]);
        for (real x = c.chi_phot_tdndt_min; x < 2 * c.chi_phot_tdndt_max; x *= (real)1.37) { real v = e.interp_dN_dt(en, x); q.ok(v >= 0 && std::isfinite(v), "rate_range", "table %g at chi %g", (double)v, (double)x); }
        e.compute_cumulative_pair_table();
        in = e.export_innards();
        size_t m = in.cum_distrib_table_coords_2_how_many;
        for (size_t i = 0; i < in.cum_distrib_table_coords_1_how_many; i++) for (size_t j = 0; j < m; j++)
            printf("R pair %.17g %.17g %zu %zu %.17g\n", (double)in.cum_distrib_table_coords_1_ptr[i], (double)in.cum_distrib_table_coords_2_ptr[j], j, m, (double)in.cum_distrib_table_data_ptr[i * m + j]);
        q.kase("tables");
        // pairs from the engine's own tables, also exactly on the table's nodes and ends
        Tab t; t.ctl = c; t.lambda = lam;
        for (int k = 0; k < 400; k++) {
            Sit s = situation(r, t, k % 3 == 0 ? 4 : k % 3 == 1 ? 0 : 7);
            if (s.chi == 0 || !std::isfinite(s.chi) || s.under > 0.1L || s.g <= 2 * (1 + 8 * EPS + 2e-8L + s.under)) continue;
            script = {(real)r.u(0, 1 - EPS), (real)0, (real)0.5, (real)(0.5 - EPS / 4), (real)(1 - EPS / 2)}; if (script[0] >= 1) script[0] = 0.5; pos_ = 0;
            auto res = e.generate_breit_wheeler_pairs(A(s), 1, 5);
            ld mc = NORM ? 1.0L : (ld)(qME * qC);
            for (int i = 0; i < 5; i++) { ld sum = 0; for (int a = 0; a < 2; a++) { ld x = res[a][i].first[0], y = res[a][i].first[1], z = res[a][i].first[2]; sum += sqrtl(1 + (x * x + y * y + z * z) / mc / mc); } q.close("pair_energy_own_tables", sum, s.g, 8 * EPS * (s.g + 2) + (1e-12L + 2 * s.under) * s.g, S("chi %g draw %.9g", (double)s.chi, (double)script[i]).c_str()); }
        }
    }
}
int main(int, char** v) {
    Rng r(atol(v[1])); std::string ph = v[2];
    if (ph == "evt") for (long i = 0; i < atol(v[3]); i++) evt(r, i);
    else integrals(r, atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]), atoi(v[7]));
    return q.finish();
}
