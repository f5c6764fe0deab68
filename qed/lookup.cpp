// Q01: lookup tables against long-double interpolants; every way of making the same table yields the same table.
#include "q.hpp"
#include <memory>
#include <unistd.h>
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
typedef lookup_1d<real> T1;
typedef lookup_2d<real> T2;
typedef long double ld;

static std::vector<real> grid(Rng& r, int kind, int n) {
    std::vector<real> v(n);
    if (kind == 0) { // equispaced through the library's generator
        real a = (real)r.u(-50, 50), b = a + (real)r.lg(1e-2, 1e3);
        return generate_lin_spaced_vec<real>(a, b, n);
    }
    if (kind == 1) { // exactly representable equispaced
        real h = (real)std::ldexp(1.0, (int)r.n(-6, 6)), a = h * (real)r.n(-100, 100);
        for (int i = 0; i < n; i++) v[i] = a + h * i;
        return v;
    }
    if (kind == 2) { // the engines' way: logarithms of a log-spaced vector
        real a = (real)r.lg(1e-4, 1e-1);
        v = generate_log_spaced_vec<real>(a, a * (real)r.lg(10, 1e6), n);
        for (auto& x : v) x = std::log(x);
        return v;
    }
    for (;;) { // irregular
        for (auto& x : v) x = (real)(r.n(0, 1) ? r.u(-10, 10) : r.g() * 3);
        std::sort(v.begin(), v.end());
        bool good = true;
        for (int i = 1; i < n; i++) good &= (v[i] - v[i - 1] > 1e-3 / n);
        if (good) return v;
    }
}
static size_t cell(const std::vector<real>& x, real w) {
    size_t i = std::upper_bound(x.begin(), x.end(), w) - x.begin();
    if (i == 0) i = 1;
    if (i > x.size() - 1) i = x.size() - 1;
    return i - 1;
}
// positions: every node, its neighbours in floating point, cell interiors
static std::vector<real> where(Rng& r, const std::vector<real>& x) {
    std::vector<real> w(x.begin(), x.end());
    for (size_t i = 0; i < x.size(); i++) {
        if (i) w.push_back(std::nextafter(x[i], x[i] - 1));
        if (i + 1 < x.size()) { w.push_back(std::nextafter(x[i], x[i] + 1)); w.push_back((real)(x[i] + r.u() * (x[i + 1] - x[i]))); }
    }
    std::vector<real> o;
    for (real a : w) if (a >= x.front() && a <= x.back()) o.push_back(a);
    return o;
}
static std::vector<real> values(Rng& r, size_t n, int kind) {
    std::vector<real> d(n);
    for (auto& v : d) v = kind == 0 ? (real)r.u(-1, 1) : kind == 1 ? (real)(r.g() * r.lg(1e-6, 1e6)) : (real)r.lg(1e-3, 1e3);
    return d;
}
static double maxabs(const std::vector<real>& v) { double m = 0; for (real x : v) m = std::max(m, (double)std::fabs(x)); return m; }
// spacing-relative rounding of a coordinate: the interpolant's argument is only known to this fraction of a cell
static double xround(const std::vector<real>& x) {
    double m = 0, s = 1e300;
    for (real a : x) m = std::max(m, (double)std::fabs(a));
    for (size_t i = 1; i < x.size(); i++) s = std::min(s, (double)(x[i] - x[i - 1]));
    return EPS * (1 + m / s);
}
// an equispaced lookup may pick the neighbouring cell when the grid is equispaced only up to rounding: it then extrapolates by the grid's rounding
static double gridround(const std::vector<real>& x) {
    double n = x.size() - 1, h = ((double)x.back() - x.front()) / n, m = 0;
    for (size_t i = 0; i < x.size(); i++) m = std::max(m, std::fabs((double)x[i] - x.front() - i * h) / h);
    return m + n * EPS * 4;
}

static void one_d(Rng& r, int rep) {
    int kind = rep % 4, n = (int)r.n(2, rep % 3 ? 12 : 70);
    std::vector<real> x = grid(r, kind, n), d = values(r, n, (int)r.n(0, 2));
    picsar_vector<real> px(x), pd(d);
    T1 t{px, pd};
    q.ok(t.is_init(), "1d_init", "a table made from data is not initialised");
    double sc = maxabs(d), tl = 8 * xround(x), te = tl + 4 * gridround(x);
    q.kase(S("1d %d %d", kind, n));
    for (real w : where(r, x)) {
        size_t i = cell(x, w);
        ld f = ((ld)w - x[i]) / ((ld)x[i + 1] - x[i]), ref = (ld)d[i] + f * ((ld)d[i + 1] - d[i]);
        real g = t.interp_linear(w);
        q.close("interp_linear", g, ref, tl * sc, S("n=%d i=%zu f=%.3Lg", n, i, f).c_str());
        q.ok(g >= std::min(d[i], d[i + 1]) - tl * sc && g <= std::max(d[i], d[i + 1]) + tl * sc, "interp_linear_between", "outside its neighbours");
        if (kind < 3) {
            g = t.interp_linear_equispaced(w);
            q.close("interp_linear_equispaced", g, ref, te * sc, S("n=%d i=%zu f=%.3Lg kind=%d", n, i, f, kind).c_str());
        }
    }
    for (int i = 0; i < n; i++) {
        q.close("interp_linear_node", t.interp_linear(x[i]), d[i], tl * sc, S("node %d of %d", i, n).c_str());
        if (kind < 3) q.close("interp_linear_equispaced_node", t.interp_linear_equispaced(x[i]), d[i], te * sc, S("node %d of %d kind %d", i, n, kind).c_str());
    }
    // the same table in every other way
    auto same = [&](const char* how, T1& o) {
        bool b = o.is_init() && o.ref_coords().size() == x.size() && o.ref_data().size() == d.size();
        for (int i = 0; b && i < n; i++) b = o.ref_coords()[i] == x[i] && o.ref_data()[i] == d[i] && o.get_coords()[i] == x[i];
        real w = (real)(x[0] + r.u() * ((double)x[n - 1] - x[0]));
        w = std::min(std::max(w, x[0]), x[n - 1]);
        b = b && o.interp_linear(w) == t.interp_linear(w);
        q.ok(b, S("same_1d_%s", how).c_str(), "table of %d nodes differs", n);
    };
    {
        T1 c(t); same("copy", c);
        c.ref_data()[0] += 1; c.ref_coords()[0] -= 1;
        same("original_after_copy_changed", t);
        T1 e; q.ok(!e.is_init(), "1d_empty", "an empty table says it is initialised");
        e = t; same("assign_to_empty", e);
        std::vector<real> x2 = grid(r, 3, 5), d2 = values(r, 5, 0);
        T1 o{picsar_vector<real>(x2), picsar_vector<real>(d2)};
        o = t; same("assign", o);
        o.ref_data()[n - 1] += 1; same("original_after_assigned_changed", t);
        o = t; T1& al = o; o = al; same("self_assign", o);
        T1 m(std::move(o)); same("move", m);
        T1 raw((size_t)n, x.data(), d.data()); same("raw", raw);
        T1 raw2(raw); same("copy_of_raw", raw2);
        T1 raw3; raw3 = raw; same("assign_of_raw", raw3);
        T1 back((size_t)n, t.ref_coords().data(), t.ref_data().data()); same("export", back);
        std::string f = S("t1_%d.bin", rep);
        { std::ofstream s(f, std::ios::binary); t.write_on_stream_bin(s); }
        T1 rd; { std::ifstream s(f, std::ios::binary); rd.read_from_stream_bin(s); } same("read_back", rd);
        { std::ifstream s(f, std::ios::binary); raw2.read_from_stream_bin(s); } same("read_over", raw2);
        T1 big{picsar_vector<real>(std::vector<real>(x2)), picsar_vector<real>(std::vector<real>(d2))};
        { std::ifstream s(f, std::ios::binary); big.read_from_stream_bin(s); } same("read_over_other_size", big);
        unlink(f.c_str());
    }
    same("original_at_the_end", t);
}

static void two_d(Rng& r, int rep) {
    int kx = rep % 4, ky = (rep / 4) % 4, n = (int)r.n(2, rep % 3 ? 7 : 24), m = (int)r.n(2, rep % 5 ? 8 : 20);
    std::vector<real> x = grid(r, kx, n), y = grid(r, ky, m), d = values(r, (size_t)n * m, (int)r.n(0, 2));
    picsar_array<picsar_vector<real>, 2> co{picsar_vector<real>(x), picsar_vector<real>(y)};
    T2 t{co, picsar_vector<real>(d)};
    double sc = maxabs(d), tl = 12 * (xround(x) + xround(y)), te = tl + 8 * (gridround(x) + gridround(y));
    q.kase(S("2d %d %d %d %d", kx, ky, n, m));
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        q.ok(t.data_at_coords(i, j) == d[(size_t)i * m + j], "data_at_coords", "(%d,%d) of %dx%d", i, j, n, m);
        q.close("interp_2d_node", t.interp_linear(x[i], y[j]), d[(size_t)i * m + j], tl * sc, S("node %d,%d of %dx%d", i, j, n, m).c_str());
        q.close("interp_first_node", t.interp_linear_first(x[i], j), d[(size_t)i * m + j], tl * sc, S("node %d,%d of %dx%d", i, j, n, m).c_str());
        if (kx < 3) q.close("interp_first_equispaced_node", t.interp_linear_first_equispaced(x[i], j), d[(size_t)i * m + j], te * sc, S("node %d,%d of %dx%d", i, j, n, m).c_str());
        if (kx < 3 && ky < 3) q.close("interp_2d_equispaced_node", t.interp_linear_equispaced(x[i], y[j]), d[(size_t)i * m + j], te * sc, S("node %d,%d of %dx%d", i, j, n, m).c_str());
    }
    for (real wx : where(r, x)) {
        size_t i = cell(x, wx);
        ld f = ((ld)wx - x[i]) / ((ld)x[i + 1] - x[i]);
        std::vector<real> wy = where(r, y);
        for (int k = 0; k < 6; k++) {
            real w = wy[r.n(0, (long)wy.size() - 1)];
            size_t j = cell(y, w);
            ld g = ((ld)w - y[j]) / ((ld)y[j + 1] - y[j]);
            ld a = d[i * m + j], b = d[i * m + j + 1], c = d[(i + 1) * m + j], e = d[(i + 1) * m + j + 1];
            ld ref = a * (1 - f) * (1 - g) + b * (1 - f) * g + c * f * (1 - g) + e * f * g;
            q.close("interp_2d", t.interp_linear(wx, w), ref, tl * sc, S("%dx%d cell %zu,%zu", n, m, i, j).c_str());
            if (kx < 3 && ky < 3) q.close("interp_2d_equispaced", t.interp_linear_equispaced(wx, w), ref, te * sc, S("%dx%d cell %zu,%zu", n, m, i, j).c_str());
        }
        for (int j = 0; j < m; j++) {
            ld ref = (ld)d[i * m + j] * (1 - f) + (ld)d[(i + 1) * m + j] * f;
            q.close("interp_first", t.interp_linear_first(wx, j), ref, tl * sc, S("%dx%d cell %zu row %d", n, m, i, j).c_str());
            if (kx < 3) q.close("interp_first_equispaced", t.interp_linear_first_equispaced(wx, j), ref, te * sc, S("%dx%d cell %zu row %d", n, m, i, j).c_str());
        }
    }
    if (kx < 3) for (int j = 0; j < m; j++) { // this one is documented by its code path to stay at the end values outside
        q.ok(t.interp_linear_first_equispaced(x[0] - (real)r.lg(1e-3, 1e3), j) == d[j], "first_equispaced_below", "row %d", j);
        q.ok(t.interp_linear_first_equispaced(x[n - 1] + (real)r.lg(1e-3, 1e3), j) == d[(size_t)(n - 1) * m + j], "first_equispaced_above", "row %d", j);
    }
    auto same = [&](const char* how, T2& o) {
        bool b = o.is_init() && o.ref_coords()[0].size() == x.size() && o.ref_coords()[1].size() == y.size() && o.ref_data().size() == d.size();
        const T2& co = o;
        for (int i = 0; b && i < n; i++) b = o.ref_coords()[0][i] == x[i] && co.ref_coords()[0][i] == x[i] && o.get_coords()[0][i] == x[i];
        for (int i = 0; b && i < m; i++) b = o.ref_coords()[1][i] == y[i] && co.ref_coords()[1][i] == y[i] && o.get_coords()[1][i] == y[i];
        for (int i = 0; b && i < n * m; i++) b = o.ref_data()[i] == d[i];
        real wx = std::min(std::max((real)(x[0] + r.u() * ((double)x[n - 1] - x[0])), x[0]), x[n - 1]), wy = std::min(std::max((real)(y[0] + r.u() * ((double)y[m - 1] - y[0])), y[0]), y[m - 1]);
        b = b && o.interp_linear(wx, wy) == t.interp_linear(wx, wy);
        q.ok(b, S("same_2d_%s", how).c_str(), "table of %dx%d nodes differs", n, m);
    };
    T2 c(t); same("copy", c);
    c.ref_data()[0] += 1; c.ref_coords()[1][0] -= 1;
    same("original_after_copy_changed", t);
    T2 e; q.ok(!e.is_init(), "2d_empty", "an empty table says it is initialised");
    e = t; same("assign_to_empty", e);
    c = t; same("assign", c);
    T2& al = c; c = al; same("self_assign", c);
    T2 mv(std::move(c)); same("move", mv);
    T2 raw((size_t)n, x.data(), (size_t)m, y.data(), d.data()); same("raw", raw);
    T2 raw2(raw); same("copy_of_raw", raw2);
    e = raw; same("assign_of_raw", e);
    T2 back((size_t)n, t.ref_coords()[0].data(), (size_t)m, t.ref_coords()[1].data(), t.ref_data().data()); same("export", back);
    std::string f = S("t2_%d.bin", rep);
    { std::ofstream s(f, std::ios::binary); t.write_on_stream_bin(s); }
    T2 rd; { std::ifstream s(f, std::ios::binary); rd.read_from_stream_bin(s); } same("read_back", rd);
    { std::ifstream s(f, std::ios::binary); raw2.read_from_stream_bin(s); } same("read_over", raw2);
    unlink(f.c_str());
    same("original_at_the_end", t);
}
// long tables, and several tables one after the other in one stream, come back identical; a cut stream is not a table
static void streams(Rng& r, int rep) {
    struct D1 { std::vector<real> x, d; }; struct D2 { std::vector<real> x, y, d; };
    std::vector<D1> a; std::vector<D2> b; std::vector<int> order;
    int count = (int)r.n(1, 5);
    auto lin = [&](size_t n) { std::vector<real> v(n); for (size_t i = 0; i < n; i++) v[i] = (real)(long)i - (real)1000; return v; };
    std::string f = S("s_%d.bin", rep);
    std::vector<size_t> ends;
    {
        std::ofstream s(f, std::ios::binary);
        for (int k = 0; k < count; k++) {
            bool two = r.n(0, 1);
            long big = rep % 8 == 0 ? 1 : 0;
            if (!two) {
                size_t n = (size_t)(big ? r.n(60000, 200000) : r.n(2, 30));
                D1 e{lin(n), values(r, n, 0)}; T1 t{picsar_vector<real>(e.x), picsar_vector<real>(e.d)}; t.write_on_stream_bin(s); a.push_back(e); order.push_back(1);
                size_t i = (size_t)r.n(0, (long)n - 2); q.close("long_1d_read", t.interp_linear(e.x[i]), e.d[i], 64 * EPS, "node");
                if (n < 4000000) q.close("long_1d_equispaced", t.interp_linear_equispaced(e.x[i]), e.d[i], 300 * EPS * (double)n, "node");
            } else {
                size_t n = (size_t)(big ? r.n(250, 500) : r.n(2, 9)), m = (size_t)(big ? r.n(250, 500) : r.n(2, 9));
                D2 e{lin(n), lin(m), values(r, n * m, 0)}; T2 t{picsar_array<picsar_vector<real>, 2>{picsar_vector<real>(e.x), picsar_vector<real>(e.y)}, picsar_vector<real>(e.d)}; t.write_on_stream_bin(s); b.push_back(e); order.push_back(2);
            }
            ends.push_back((size_t)s.tellp());
        }
    }
    q.kase(S("stream of %d", count));
    auto eq = [&](const picsar_vector<real>& g, const std::vector<real>& w) { return g.size() == w.size() && std::equal(w.begin(), w.end(), g.begin()); };
    {
        std::ifstream s(f, std::ios::binary); size_t i1 = 0, i2 = 0;
        for (int k = 0; k < count; k++) {
            bool good;
            if (order[k] == 1) { T1 t; t.read_from_stream_bin(s); good = t.is_init() && eq(t.ref_coords(), a[i1].x) && eq(t.ref_data(), a[i1].d); i1++; }
            else { T2 t; t.read_from_stream_bin(s); good = t.is_init() && eq(t.ref_coords()[0], b[i2].x) && eq(t.ref_coords()[1], b[i2].y) && eq(t.ref_data(), b[i2].d); i2++; }
            q.ok(good, "stream_read", "table %d of %d (%dd) differs after the stream round trip", k, count, order[k]);
            q.ok(s.good() && (size_t)s.tellg() == ends[k], "stream_position", "table %d of %d: position %ld instead of %zu", k, count, (long)s.tellg(), ends[k]);
        }
    }
    for (int c = 0; c < 12; c++) { // cut
        size_t len = (size_t)r.n(0, (long)ends[0] - 1);
        std::string bytes; { std::ifstream s(f, std::ios::binary); bytes.resize(len); s.read(&bytes[0], (std::streamsize)len); }
        std::string g = S("c_%d.bin", rep); { std::ofstream s(g, std::ios::binary); s.write(bytes.data(), (std::streamsize)len); }
        std::ifstream s(g, std::ios::binary); bool init;
        if (order[0] == 1) { T1 t; try { t.read_from_stream_bin(s); } catch (const std::exception&) { } init = t.is_init(); } else { T2 t; try { t.read_from_stream_bin(s); } catch (const std::exception&) { } init = t.is_init(); }
        q.ok(!init, "cut_stream", "%dd table read from the first %zu of %zu bytes says it is initialised", order[0], len, ends[0]);
        unlink(g.c_str());
    }
    unlink(f.c_str());
}
// the search the tables use equals the standard one
static void search(Rng& r) {
    int n = (int)r.n(0, 40);
    std::vector<real> v(n);
    for (auto& x : v) x = (real)r.n(-8, 8);
    std::sort(v.begin(), v.end());
    for (int k = -10; k <= 10; k++) for (double o : {0., .5}) {
        real w = (real)(k + o);
        const real* p = v.data();
        q.ok(picsar_upper_bound(p, p + n, w) - p == std::upper_bound(v.begin(), v.end(), w) - v.begin(), "upper_bound", "n=%d val=%g", n, (double)w);
    }
    q.kase(S("search %d", n));
}
int main(int, char** v) {
    uint64_t seed = strtoull(v[1], 0, 10);
    long reps = atol(v[2]);
    for (long i = 0; i < reps; i++) { Rng r(seed * 1000003 + i); one_d(r, (int)i); }
    for (long i = 0; i < reps; i++) { Rng r(seed * 2000003 + i); two_d(r, (int)i); search(r); }
    for (long i = 0; i < reps / 4; i++) { Rng r(seed * 3000003 + i); streams(r, (int)i); }
    return q.finish();
}
