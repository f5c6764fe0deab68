// Shared frame of the QED harnesses: seeded generator, oracle counters, one-line-per-fact output read by lib/qed.py.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <limits>
#include <algorithm>
#include <functional>
#ifndef REAL
#define REAL double
#endif
typedef REAL real;
static const double EPS = std::numeric_limits<real>::epsilon();

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * 1.1102230246251565e-16; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double lg(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    long n(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
    double g() { double a = u(), b = u(); return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b); }
};
struct Q {
    std::map<std::string, double> W;
    std::map<std::string, long> V;
    std::set<std::string> keys;
    long evals = 0, cases = 0;
    void kase(const std::string& k) { ++cases; keys.insert(k); }
    bool ok(bool c, const char* key, const char* fmt, ...) {
        ++evals;
        if (!c && V[key]++ < 3) {
            printf("V %s ", key);
            va_list a; va_start(a, fmt); vprintf(fmt, a); va_end(a);
            printf("\n"); fflush(stdout);
        }
        return c;
    }
    // |got-ref| <= tol, NaN never passes
    bool close(const char* key, long double got, long double ref, long double tol, const char* what = "") {
        long double d = fabsl(got - ref);
        double r = tol > 0 ? (double)(d / tol) : (d == 0 ? 0. : INFINITY);
        if (std::isnan(r)) r = INFINITY;
        if (!(r <= W[key])) W[key] = r;
        return ok(r <= 1, key, "%s got %.17Lg expected %.17Lg tolerance %.3Lg", what, got, ref, tol);
    }
    int finish() {
        for (auto& k : keys) printf("C %s\n", k.c_str());
        for (auto& w : W) printf("W %s %.6g\n", w.first.c_str(), w.second);
        for (auto& v : V) if (v.second) printf("N %s %ld\n", v.first.c_str(), v.second);
        printf("E %ld %ld\n", evals, cases);
        fflush(stdout);
        return 0;
    }
};
static Q q;
static inline std::string S(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
