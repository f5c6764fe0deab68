// Table generation with several threads: prints every table value (bit for bit) and the message stream's line counts.
#include <fstream>
#include <iterator>
#include <sstream>
#include "q.hpp"
#include "rng_wrapper.hpp"
#include "breit_wheeler_engine.hpp"
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
struct Rnd { real unf(real a, real b) { return a; } real exp(real l) { return 1 / l; } };
// stand-ins for the expensive integrals: what is watched here is the tables' threading, not their values (Q02, Q03)
namespace picsar { namespace multi_physics {
template <> real quantum_synchrotron_engine<real, Rnd>::compute_cumulative_phot_em(real chi_photon, real chi_part) const { real f = chi_photon / chi_part; return std::pow(f, 1 / (2 + chi_part / (1 + chi_part))); }
template <> real breit_wheeler_engine<real, Rnd>::compute_cumulative_pair(real chi_photon, real chi_part) const { real f = chi_part / chi_photon; return f * f * (3 - 2 * f) * chi_photon / (1 + chi_photon); }
}}
static void dump(const char *n, const char *f) {
    std::ifstream s(f, std::ios::binary);
    std::string t{std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>()};
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
    printf("R %s %zu %llu %llu\n", n, t.size(), (unsigned long long)(h >> 32), (unsigned long long)(h & 0xffffffff));
}
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    Rng r(seed);
    bool str = argc > 2 && argv[2][0] == 's';
    for (int k = 0; k < 4; k++) {
        breit_wheeler_engine_ctrl<real> c; c.chi_phot_tpair_how_many = (size_t)r.n(3, 60); c.chi_frac_tpair_how_many = (size_t)r.n(3, 20); c.chi_phot_tpair_min = (real)r.lg(0.1, 1);
        std::ostringstream o;
        breit_wheeler_engine<real, Rnd> e{Rnd{}, 1, c};
        e.compute_cumulative_pair_table(str ? &o : nullptr);
        e.write_cumulative_pair_table("t.bin");
        dump("bw", "t.bin");
        if (str) { std::string t = o.str(); printf("R bwmsg %zu %ld\n", t.size(), (long)std::count(t.begin(), t.end(), '\n')); }
        quantum_synchrotron_engine_ctrl<real> q; q.chi_part_tem_how_many = (size_t)r.n(3, 60); q.prob_tem_how_many = (size_t)r.n(3, 20); q.chi_part_tem_min = (real)r.lg(0.1, 1); q.chi_part_tem_max = (real)r.lg(5, 50);
        std::ostringstream p;
        quantum_synchrotron_engine<real, Rnd> f{Rnd{}, 1, q};
        f.compute_cumulative_phot_em_table(str ? &p : nullptr);
        f.write_cumulative_phot_em_table("t.bin");
        dump("qs", "t.bin");
        if (str) { std::string t = p.str(); printf("R qsmsg %zu %ld\n", t.size(), (long)std::count(t.begin(), t.end(), '\n')); }
    }
    printf("E 4 4\n");
}
