// Q08: histories of containers, tables and engines under sanitizers or memcheck; contents compared with a plain model after every step.
#include "q.hpp"
#include <fstream>
#include <cstring>
#include <memory>
#include <sstream>
#include <unistd.h>
#include "rng_wrapper.hpp"
#include "lookup_tables.hpp"
#include "breit_wheeler_engine.hpp"
#include "quantum_sync_engine.hpp"
#include "schwinger_pair_engine.hpp"
using namespace picsar::multi_physics;

// element type that counts its live objects and owns memory
struct Tr {
    static long live;
    double* p;
    Tr(double v = 0) : p(new double(v)) { ++live; }
    Tr(const Tr& o) : p(new double(*o.p)) { ++live; }
    Tr& operator=(const Tr& o) { if (this != &o) { double* n = new double(*o.p); delete p; p = n; } return *this; }
    ~Tr() { delete p; --live; }
    bool operator==(const Tr& o) const { return *p == *o.p; }
};
long Tr::live = 0;

// ---- picsar_vector against std::vector
template<class T> struct Slot { std::unique_ptr<picsar_vector<T>> v; std::vector<T> m; std::shared_ptr<std::vector<T>> back; bool raw = false, moved = false; };
template<class T> static void vec_hist(Rng& r, const char* ty) {
    const int N = 5;
    std::vector<Slot<T>> s(N);
    std::string hist;
    double ctr = 0;
    auto fresh = [&](size_t n) { std::vector<T> a; for (size_t i = 0; i < n; i++) a.push_back(T(++ctr)); return a; };
    auto check = [&](int i) {
        auto& x = s[i];
        if (!x.v || x.moved) return;
        const picsar_vector<T>& cv = *x.v;
        q.ok(cv.size() == x.m.size(), "vec_size", "%s after %s: size %zu expected %zu", ty, hist.c_str(), cv.size(), x.m.size());
        if (cv.size() != x.m.size()) return;
        bool eq = true;
        for (size_t k = 0; k < x.m.size(); k++) eq = eq && cv[(int)k] == x.m[k] && (*x.v)[(int)k] == x.m[k] && x.v->data()[k] == x.m[k];
        size_t k = 0;
        for (const T& e : cv) { eq = eq && k < x.m.size() && e == x.m[k]; ++k; }
        for (T& e : *x.v) { eq = eq && e == x.m[k - x.m.size()]; ++k; }
        eq = eq && k == 2 * x.m.size();
        if (!x.m.empty()) eq = eq && cv.front() == x.m.front() && cv.back() == x.m.back() && x.v->front() == x.m.front() && x.v->back() == x.m.back();
        q.ok(eq, "vec_content", "%s slot %d wrong after %s", ty, i, hist.c_str());
        if (x.raw) q.ok(x.v->data() == x.back->data(), "vec_raw", "%s wrapped pointer changed after %s", ty, hist.c_str());
    };
    int len = (int)r.n(5, 40);
    for (int st = 0; st < len; st++) {
        int i = (int)r.n(0, N - 1), j = (int)r.n(0, N - 1), op = (int)r.n(0, 13);
        size_t n = (size_t)(r.n(0, 3) == 0 ? r.n(0, 1) : r.n(1, 12));
        auto &x = s[i], &y = s[j];
        auto own = [&](std::vector<T> m) { x.m = std::move(m); x.raw = false; x.moved = false; };
        bool yok = y.v && !y.moved;
        switch (op) {
        case 0: x.v.reset(new picsar_vector<T>(n)); own(std::vector<T>()); { auto f = fresh(n); for (size_t k = 0; k < n; k++) (*x.v)[(int)k] = f[k]; own(f); } break;
        case 1: { auto f = fresh(n); x.v.reset(new picsar_vector<T>(f)); own(f); break; }
        case 2: { auto f = fresh(3); x.v.reset(new picsar_vector<T>(f[0], f[1], f[2])); own(f); break; }
        case 3: x.v.reset(new picsar_vector<T>()); own({}); break;
        case 4: { auto b = std::make_shared<std::vector<T>>(fresh(n)); x.v.reset(new picsar_vector<T>(n, b->data())); own(*b); x.raw = true; x.back = b; break; }
        case 5: if (yok && i != j) { x.v.reset(new picsar_vector<T>(static_cast<const picsar_vector<T>&>(*y.v))); own(y.m); } break;
        case 6: if (yok && i != j) { x.v.reset(new picsar_vector<T>(std::move(*y.v))); own(y.m); x.raw = y.raw; x.back = y.back; y.moved = true; } break;
        case 7: if (yok && x.v) { *x.v = static_cast<const picsar_vector<T>&>(*y.v); if (i != j) own(y.m); } break;
        case 8: if (yok && x.v) { *x.v = std::move(*y.v); if (i != j) { own(y.m); x.raw = y.raw; x.back = y.back; y.moved = true; } } break;
        case 9: case 10: if (x.v && !x.moved && !x.raw) {
            size_t old = x.m.size(); x.v->resize(n); x.m.resize(n);
            for (size_t k = old; k < n; k++) { (*x.v)[(int)k] = T(++ctr); x.m[k] = T(ctr); } }
            break;
        case 11: if (x.v && !x.moved && !x.m.empty()) {
            size_t k = (size_t)r.n(0, (long)x.m.size() - 1); T e(++ctr);
            if (r.n(0, 1)) (*x.v)[(int)k] = e; else *(x.v->begin() + k) = e;
            x.m[k] = e; if (x.raw) for (auto& z : s) if (z.v && z.raw && z.back == x.back && !z.moved) z.m[k] = e; }
            break;
        case 12: x.v.reset(); x.m.clear(); x.raw = x.moved = false; break;
        case 13: { picsar_array<picsar_vector<T>, 2> a{picsar_vector<T>(fresh(n)), picsar_vector<T>(fresh(n))}; auto b = a; b[0] = a[1]; if (yok && i != j) { auto c = picsar_array<picsar_vector<T>, 2>{*y.v, *y.v}; x.v.reset(new picsar_vector<T>(c[1])); own(y.m); } break; }
        }
        hist += S("%d(%d,%d,%zu) ", op, i, j, n);
        q.kase(S("vec %s op%d n%zu", ty, op, n));
        for (int k = 0; k < N; k++) check(k);
    }
}

// ---- tables
static std::vector<real> grid(Rng& r, size_t n) { std::vector<real> g; double x = r.u(-5, 5), h = r.lg(0.01, 10); for (size_t i = 0; i < n; i++) g.push_back((real)(x + h * i)); return g; }
static std::vector<real> vals(Rng& r, size_t n) { std::vector<real> g; for (size_t i = 0; i < n; i++) g.push_back((real)r.u(-9, 9)); return g; }
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spill(const char* f, const std::string& b) { std::ofstream o(f, std::ios::binary); o.write(b.data(), b.size()); }
struct M1 { std::vector<real> x, y; };
struct M2 { std::vector<real> x, y, d; };
static bool same(lookup_1d<real>& t, const M1& m) {
    auto &c = t.ref_coords(), &d = t.ref_data();
    return t.is_init() && c.size() == m.x.size() && d.size() == m.y.size() && std::equal(m.x.begin(), m.x.end(), c.begin()) && std::equal(m.y.begin(), m.y.end(), d.begin());
}
static bool same(lookup_2d<real>& t, const M2& m) {
    auto& c = t.ref_coords(); auto& d = t.ref_data();
    return t.is_init() && c[0].size() == m.x.size() && c[1].size() == m.y.size() && d.size() == m.d.size() && std::equal(m.x.begin(), m.x.end(), c[0].begin()) &&
           std::equal(m.y.begin(), m.y.end(), c[1].begin()) && std::equal(m.d.begin(), m.d.end(), d.begin());
}
template<class R> static void touch(lookup_1d<R>& t, Rng& r) {
    auto& c = t.ref_coords(); volatile R s = 0;
    for (int k = 0; k < 4; k++) { R w = k == 0 ? c.front() : k == 1 ? c.back() : (R)(c.front() + (c.back() - c.front()) * r.u()); w = std::min(std::max(w, c.front()), c.back()); s = s + t.interp_linear(w) + t.interp_linear_equispaced(w); }
}
template<class R> static void touch(lookup_2d<R>& t, Rng& r) {
    auto& c = t.ref_coords(); volatile R s = 0;
    for (int k = 0; k < 6; k++) {
        R w = k == 0 ? c[0].front() : k == 1 ? c[0].back() : (R)(c[0].front() + (c[0].back() - c[0].front()) * r.u()), v = k == 2 ? c[1].front() : k % 2 ? c[1].back() : (R)(c[1].front() + (c[1].back() - c[1].front()) * r.u());
        w = std::min(std::max(w, c[0].front()), c[0].back()); v = std::min(std::max(v, c[1].front()), c[1].back());
        s = s + t.interp_linear(w, v) + t.interp_linear_equispaced(w, v) + t.interp_linear_first_equispaced(k == 5 ? c[0].back() + 1 : w, (size_t)r.n(0, (long)c[1].size() - 1));
    }
}
static lookup_1d<real> make(const M1& m) { return lookup_1d<real>(picsar_vector<real>(m.x), picsar_vector<real>(m.y)); }
static lookup_2d<real> make(const M2& m) { return lookup_2d<real>(picsar_array<picsar_vector<real>, 2>{picsar_vector<real>(m.x), picsar_vector<real>(m.y)}, picsar_vector<real>(m.d)); }
static lookup_1d<real> wrap(M1& m) { return lookup_1d<real>(m.x.size(), m.x.data(), m.y.data()); }
static lookup_2d<real> wrap(M2& m) { return lookup_2d<real>(m.x.size(), m.x.data(), m.y.size(), m.y.data(), m.d.data()); }
static void draw(Rng& r, M1& m) { size_t n = (size_t)r.n(2, 12); m.x = grid(r, n); m.y = vals(r, n); }
static void draw(Rng& r, M2& m) { size_t n = (size_t)r.n(2, 9), k = (size_t)r.n(2, 9); m.x = grid(r, n); m.y = grid(r, k); m.d = vals(r, n * k); }

template<class T, class M> static void tab_hist(Rng& r, const char* ty) {
    const int N = 4;
    std::vector<std::unique_ptr<T>> t(N); std::vector<M> m(N); std::vector<std::shared_ptr<M>> back(N); std::vector<int> st(N, 0); // 0 none/moved, 1 ok, 2 empty
    std::string hist; int len = (int)r.n(4, 24);
    for (int k = 0; k < len; k++) {
        int i = (int)r.n(0, N - 1), j = (int)r.n(0, N - 1), op = (int)r.n(0, 9);
        hist += S("%d(%d,%d) ", op, i, j);
        switch (op) {
        case 0: draw(r, m[i]); t[i].reset(new T(make(m[i]))); st[i] = 1; break;
        case 1: back[i] = std::make_shared<M>(); draw(r, *back[i]); m[i] = *back[i]; t[i].reset(); t[i].reset(new T(wrap(*back[i]))); st[i] = 1; break;
        case 2: t[i].reset(new T()); st[i] = 2; break;
        case 3: if (st[j] && i != j) { t[i].reset(new T(*t[j])); m[i] = m[j]; st[i] = st[j]; } break;
        case 4: if (st[j] && i != j) { t[i].reset(new T(std::move(*t[j]))); m[i] = m[j]; back[i] = back[j]; st[i] = st[j]; st[j] = 0; } break;
        case 5: if (st[j] && t[i]) { *t[i] = *t[j]; m[i] = m[j]; st[i] = st[j]; } break;
        case 6: if (st[i]) { M x; draw(r, x); T a = make(x); a = *t[i]; T b(a); if (st[i] == 1) { q.ok(same(b, m[i]), "tab_chain", "%s after %s", ty, hist.c_str()); } else q.ok(!b.is_init(), "tab_chain_empty", "%s after %s", ty, hist.c_str()); } break;
        case 7: if (st[i] == 1) { // write, read into j whatever j holds
            { std::ofstream o("t.bin", std::ios::binary); t[i]->write_on_stream_bin(o); }
            if (i == j || !t[j] || st[j] == 0) t[j].reset(i == j ? t[j].release() : new T());
            { std::ifstream s("t.bin", std::ios::binary); t[j]->read_from_stream_bin(s); }
            m[j] = m[i]; st[j] = 1; }
            break;
        case 8: if (st[i] == 1 && t[j] && i != j && st[j]) { // truncated file into j
            { std::ofstream o("t.bin", std::ios::binary); t[i]->write_on_stream_bin(o); }
            std::string b = slurp("t.bin"); b.resize((size_t)r.n(0, (long)b.size() - 1)); spill("t.bin", b);
            { std::ifstream s("t.bin", std::ios::binary); try { t[j]->read_from_stream_bin(s); } catch (const std::exception&) { } }
            q.ok(!t[j]->is_init(), "truncated_file_initialised", "%s read from a file cut at byte %zu reports that it is initialised", ty, b.size());
            t[j].reset(new T()); st[j] = 2; }
            break;
        case 9: if (st[i] == 1) { // damaged size field or missing file
            { std::ofstream o("t.bin", std::ios::binary); t[i]->write_on_stream_bin(o); }
            std::string b = slurp("t.bin");
            uint64_t bad[] = {0, 1, (uint64_t)r.n(3, 40), 1ull << 20, 1ull << 40, ~0ull, ~0ull / sizeof(real) + 2, 1ull << 61};
            int w = (int)r.n(0, 8);
            T x;
            if (w == 8) { unlink("no.bin"); std::ifstream s("no.bin", std::ios::binary); try { x.read_from_stream_bin(s); } catch (const std::exception&) { } q.ok(!x.is_init(), "missing_file_initialised", "%s read from a missing file reports that it is initialised", ty); break; }
            uint64_t was; memcpy(&was, &b[0], 8); if (bad[w] == was) break;
            memcpy(&b[0], &bad[w], 8); spill("t.bin", b);
            std::ifstream s("t.bin", std::ios::binary); try { x.read_from_stream_bin(s); } catch (const std::exception&) { }
            q.ok(!x.is_init(), "corrupt_size_initialised", "%s whose first size field was %llu instead of %llu reports that it is initialised", ty, (unsigned long long)bad[w], (unsigned long long)was); }
            break;
        }
        q.kase(S("%s op%d state%d%d", ty, op, st[i], st[j]));
        for (int a = 0; a < N; a++) {
            if (st[a] == 1) { q.ok(same(*t[a], m[a]), "tab_content", "%s slot %d after %s", ty, a, hist.c_str()); touch(*t[a], r); }
            if (st[a] == 2) q.ok(!t[a]->is_init(), "tab_empty", "%s slot %d after %s", ty, a, hist.c_str());
        }
    }
}

// ---- engines
typedef stl_rng_wrapper<real> W;
typedef breit_wheeler_engine<real, W> BW; typedef quantum_synchrotron_engine<real, W> QS; typedef schwinger_pair_engine<real, W> SW;
static const double me = 9.10938356e-31, cc = 299792458., ES = 1.3232854e18;
struct Setup { real lam, pu, eu, bu; };
static Setup setup(Rng& r) {
    Setup s; double l = r.lg(2e-7, 1e-5);
#ifdef PXRMP_WITH_NORMALIZED_UNITS
    s.lam = (real)l; s.pu = 1; double w = 2 * 3.14159265358979 * cc / l; s.eu = (real)(ES / (me * w * cc / 1.602176565e-19)); s.bu = s.eu;
#else
    s.lam = 1; s.pu = (real)(me * cc); s.eu = (real)ES; s.bu = (real)(ES / cc);
#endif
    return s;
}
struct Par { real p[3], e[3], b[3]; };
static Par par(Rng& r, const Setup& s) { Par p; double g = r.lg(10, 1e4), f = r.lg(1e-5, 1e-2); for (int i = 0; i < 3; i++) { p.p[i] = (real)(s.pu * g * r.g()); p.e[i] = (real)(s.eu * f * r.g()); p.b[i] = (real)(s.bu * f * r.g()); } return p; }
static real dt_of(Rng& r) {
#ifdef PXRMP_WITH_NORMALIZED_UNITS
    return (real)r.lg(1e-4, 10);
#else
    return (real)r.lg(1e-19, 1e-14);
#endif
}
#define P3 p.p[0], p.p[1], p.p[2], p.e[0], p.e[1], p.e[2], p.b[0], p.b[1], p.b[2]
static std::vector<double> use(BW& e, Rng r, const Setup& s, bool tabs) {
    std::vector<double> o;
    for (int k = 0; k < 5; k++) {
        Par p = par(r, s); real od = e.get_optical_depth(); real dt = dt_of(r);
        if (tabs) {
            auto v = e.evolve_opt_depth_and_determine_event(P3, dt, od); o.push_back(v.first); o.push_back(v.second); o.push_back(od);
            auto g = e.generate_breit_wheeler_pairs(P3, (real)2, (size_t)r.n(1, 7));
            for (auto* v : {&g[0], &g[1]}) for (auto& x : *v) { o.push_back(x.first[0]); o.push_back(x.second); }
        } else o.push_back(od);
    }
    return o;
}
static std::vector<double> use(QS& e, Rng r, const Setup& s, bool tabs) {
    std::vector<double> o;
    for (int k = 0; k < 5; k++) {
        Par p = par(r, s); real od = e.get_optical_depth(); real dt = dt_of(r);
        if (tabs) {
            auto v = e.evolve_opt_depth_and_determine_event(P3, dt, od); o.push_back(v.first); o.push_back(v.second); o.push_back(od);
            auto g = e.generate_photons_and_update_momentum(P3, (real)2, (size_t)r.n(1, 7));
            for (auto& x : g) { o.push_back(x.first[1]); o.push_back(x.second); }
            o.push_back(p.p[0]);
        } else o.push_back(od);
    }
    return o;
}
static bool eqv(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
static void ctl(Rng& r, breit_wheeler_engine_ctrl<real>& c) {
    c.chi_phot_tdndt_min = (real)r.lg(0.05, 0.2); c.chi_phot_tdndt_max = (real)r.lg(5, 200); c.chi_phot_tdndt_how_many = (size_t)r.n(2, 3);
    c.chi_phot_tpair_min = (real)r.lg(0.05, 0.2); c.chi_phot_tpair_max = (real)r.lg(5, 200); c.chi_phot_tpair_how_many = 2; c.chi_frac_tpair_how_many = (size_t)r.n(3, 4);
}
static void ctl(Rng& r, quantum_synchrotron_engine_ctrl<real>& c) {
    c.chi_part_tdndt_min = (real)r.lg(1e-3, 0.1); c.chi_part_tdndt_max = (real)r.lg(5, 200); c.chi_part_tdndt_how_many = (size_t)r.n(2, 3);
    c.chi_part_tem_min = (real)r.lg(0.3, 0.5); c.chi_part_tem_max = (real)r.lg(0.8, 1.5); c.chi_part_tem_how_many = 2; c.prob_tem_how_many = (size_t)r.n(2, 3);
}
template<class E> struct Ops;
template<> struct Ops<BW> { typedef breit_wheeler_engine_ctrl<real> C; static void t1(BW& e) { e.compute_dN_dt_lookup_table(); } static void t2(BW& e) { e.compute_cumulative_pair_table(); }
    static void w(BW& e, std::string a, std::string b) { e.write_dN_dt_table(a); e.write_cumulative_pair_table(b); } static void r1(BW& e, std::string a) { e.read_dN_dt_table(a); } static void r2(BW& e, std::string b) { e.read_cumulative_pair_table(b); } };
template<> struct Ops<QS> { typedef quantum_synchrotron_engine_ctrl<real> C; static void t1(QS& e) { e.compute_dN_dt_lookup_table(); } static void t2(QS& e) { e.compute_cumulative_phot_em_table(); }
    static void w(QS& e, std::string a, std::string b) { e.write_dN_dt_table(a); e.write_cumulative_phot_em_table(b); } static void r1(QS& e, std::string a) { e.read_dN_dt_table(a); } static void r2(QS& e, std::string b) { e.read_cumulative_phot_em_table(b); } };

template<class E> static void eng_hist(Rng& r, const char* ty) {
    static E* proto = nullptr; static Setup s; static typename Ops<E>::C c; static uint64_t seed; bool first = !proto; if (first) seed = r.next();
    if (first) { s = setup(r); ctl(r, c); } // tables are slow: computed once, in the first history
    Rng ur = r; r.next();
    auto expect = [&](E& e, const char* what, const std::vector<double>& ref) { E cp(e); auto o = use(e, ur, s, true); q.ok(eqv(o, ref), "engine_history", "%s: %s gives other events than the engine it comes from", ty, what); q.kase(S("%s %s", ty, what)); (void)cp; };
    auto* base = first ? new E(W(seed), s.lam, c) : new E(*proto);
    if (first) { E e0(W(seed), s.lam, c); use(e0, ur, s, false); Par p = par(r, s); real od = 1; auto v = e0.evolve_opt_depth_and_determine_event(P3, dt_of(r), od); (void)v; }
    if (first) { Ops<E>::t1(*base); Ops<E>::t2(*base); proto = new E(*base); }
    std::vector<double> ref; { E a(*base); ref = use(a, ur, s, true); }
    { E a(*base); expect(a, "copy", ref); }
    { E a(*base); E b(std::move(a)); expect(b, "move", ref); }
    { auto* a = new E(*base); E b(*a); delete a; expect(b, "copy outliving its source", ref); }
    { E a(*base); auto in = a.export_innards(); E b(in); expect(b, "engine from innards", ref); E d(b); (void)d; }
    { E a(*base); auto in = a.export_innards(); auto* b = new E(in); E d(*b); delete b; auto o = use(d, ur, s, true); q.ok(eqv(o, ref), "engine_history", "%s: copy of an engine from innards", ty); }
    if (first) { E a(*base); auto in = a.export_innards(); E b(in); Ops<E>::t1(b); if (std::is_same<E, BW>::value) Ops<E>::t2(b); expect(b, "engine from innards with recomputed tables", ref); }
    Ops<E>::w(*base, "a.bin", "b.bin");
    { E b(W(seed), s.lam, c); Ops<E>::r1(b, "a.bin"); Ops<E>::r2(b, "b.bin"); expect(b, "tables read from files", ref); }
    { E a(*base); auto in = a.export_innards(); E b(in); bool threw = false; try { Ops<E>::r1(b, "a.bin"); Ops<E>::r2(b, "b.bin"); } catch (const std::exception&) { threw = true; } if (!threw) expect(b, "tables read from files over wrapped ones", ref); }
    // damaged files: no event may come out of a table that was not read
    if (first || r.n(0, 9) == 0) for (int k = 0; k < 4; k++) {
        E b(W(seed), s.lam, c); if (k == 3) b.~E(), new (&b) E(*base);
        std::string f = "no.bin"; unlink("no.bin");
        if (k) { std::string x = slurp("a.bin"); x.resize((size_t)r.n(0, (long)x.size() - 1)); f = "c.bin"; spill("c.bin", x); }
        try { Ops<E>::r1(b, f); } catch (const std::exception&) { }
        Par p = par(r, s); for (auto& e : p.e) e *= (real)100; real od = (real)1e-6, od0 = od;
        E none(W(seed), s.lam, c); real dt = dt_of(r), odn = od0;
        auto v = b.evolve_opt_depth_and_determine_event(P3, dt, od), w = none.evolve_opt_depth_and_determine_event(P3, dt, odn);
        q.ok(v == w && od == odn, "engine_damaged_file", "%s: event %d, optical depth %g after reading a %s table file, %d, %g without a table", ty, (int)v.first, (double)od, k ? "truncated" : "missing", (int)w.first, (double)odn);
        q.kase(S("%s damaged file %d", ty, k));
    }
    delete base;
}
static void schw(Rng& r) {
    Setup s = setup(r); SW a(W(r.next()), s.lam); SW b(a); SW c(std::move(a));
    for (int k = 0; k < 5; k++) {
        Par p = par(r, s); for (auto& e : p.e) e *= (real)r.lg(1, 1e3); real d = (real)1e-9, dt = dt_of(r);
#ifdef PXRMP_WITH_NORMALIZED_UNITS
        d = (real)1e-3;
#endif
        auto x = b.generate_pairs_single(p.e[0], p.e[1], p.e[2], p.b[0], p.b[1], p.b[2], d, d, d, dt); auto y = c.generate_pairs_single(p.e[0], p.e[1], p.e[2], p.b[0], p.b[1], p.b[2], d, d, d, dt);
        q.ok(x == y, "schwinger_copy", "a copied and a moved engine differ");
        q.kase("schwinger copy/move");
    }
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10); long n = atol(v[2]), m = atol(v[3]);
    char d[] = "memXXXXXX"; if (!mkdtemp(d) || chdir(d)) return 3;
    for (long i = 0; i < n; i++) {
        Rng r(seed * 1000003 + i);
        vec_hist<real>(r, "real"); vec_hist<Tr>(r, "object");
        q.ok(Tr::live == 0, "live_objects", "%ld elements still alive after every vector was destroyed", Tr::live); Tr::live = 0;
        tab_hist<lookup_1d<real>, M1>(r, "lookup_1d"); tab_hist<lookup_2d<real>, M2>(r, "lookup_2d");
    }
    for (long i = 0; i < m; i++) { Rng r(seed * 7919 + i); eng_hist<BW>(r, "breit_wheeler"); eng_hist<QS>(r, "quantum_synchrotron"); schw(r); }
    for (auto f : {"t.bin", "a.bin", "b.bin", "c.bin", "no.bin"}) unlink(f);
    if (chdir("..") || rmdir(d)) return 3;
    return q.finish();
}
