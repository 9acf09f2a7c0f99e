// C01 / C02 / C03: every observed state of runs with the shipped solvers is checked for energy (PROP 1), momentum, centre of
// mass and angular momentum (PROP 2), and against the true trajectory (PROP 3).
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "scen.hpp"
using namespace hub;
using ref::Body;
using ref::L;
using ref::V;
using vh::cat;
using F = force::Interactions<force::NewtonianGrav>;
template <class T>
using PP = particles::PointParticles<T>;
const L EPS = 0x1p-52L;
enum Family { BS, RADAU, SYM, CONST };
struct Info {
    const char* name;
    Family fam;
    int order;
    bool reg, chain, extra = false, central = false;
};
inline L max_speed(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.v)); return m; }
inline L max_dist(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.r)); return m; }
inline L min_sep(std::vector<Body> const& b) { L m = INFINITY; for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) m = std::min(m, ref::dist(b[i].r, b[j].r)); return m; }
inline bool harsh(int kind) { return kind == 1 || kind == 4 || kind == 6 || kind == 8; }

template <class Solver>
void energy(Info in, int kind, vh::Rng& r) {
    using S = typename Solver::Scalar;
    bool drift = r.chance(0.4);
    auto s = scen::make(r, kind, drift, true, kind == 5);
    L K, U;
    L E0 = ref::energy(s.b, &K, &U);
    L scale = std::max(fabsl(E0), K - U), worst = 0, worst_rep = 0, sep = INFINITY, rmax = 0, kmax = 0, deepest = 0;
    const L scale0 = scale;
    L allow = (harsh(kind) ? 5e-10L : 2e-12L);
    if (kind == 1 && !in.reg) allow = 5e-9L;
    if (kind == 8) allow = in.chain ? 2e-9L : 2e-8L;
    if (in.fam == RADAU && !harsh(kind)) allow = 5e-12L;
    if (in.order == 2) allow = std::max(allow, 1e-9L);
    if (in.order == 4) allow = std::max(allow, 1e-10L);
    long steps = 0, cap = in.order == 2 ? 1200 : in.order == 4 ? 1500 : 6000;
    Solver sim(S(0), scen::particles_of<Solver>(s.b));
    typename Solver::RunArgs a;
    S lib0 = calc::calc_total_energy(sim.particles());
    a.add_operation([&](auto& p, auto) {
        ++steps;
        auto b = scen::bodies(p);
        L k, u;
        L E = ref::energy(b, &k, &u);
        scale = std::max(scale, k - u);
        sep = std::min(sep, min_sep(b));
        // the differences of coordinates are only as good as the coordinates: rounding of close pairs
        L round = 0;
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) { L d = ref::dist(b[i].r, b[j].r); round += b[i].m * b[j].m / (d * d) * (ref::norm(b[i].r) + ref::norm(b[j].r)); }
        round *= EPS / scale;
        L kround = in.chain ? EPS * ref::mass(b) * max_speed(b) * max_speed(b) / scale : 0;
        rmax = std::max(rmax, round * scale), kmax = std::max(kmax, kround * scale);
        deepest = std::max(deepest, -u / scale0);
        L lim = std::max(allow, deepest > 30 ? (in.reg ? 5e-10L : 5e-9L) : 0) + 100 * (rmax + kmax) / scale;
        L err = fabsl(E - E0) / scale;
        if (!(err / lim <= worst)) worst = err / lim;
        // the library's own figures
        L lib = (L)calc::calc_energy_error(p, lib0);
        L lib_e = (L)calc::calc_total_energy(p);
        L eround = (16 * (L)b.size() * EPS + (in.chain ? 16 * (round + kround) : 0)) * scale;
        L w = fabsl(lib_e - E) / eround;
        if (!(w <= worst_rep)) worst_rep = w;
        // relative error reported: |E - E0| / |E0|; for regularised systems relative to the potential, through the integrated energy
        vh::eval(vh::mix(steps) ^ vh::hash_str(in.name) ^ vh::mix(vh::bits_of((double)E)));
        (void)lib;
        if (in.reg) {
            L got = fabsl(lib), want = fabsl(E - E0) / (-u);
            if (!(std::fabs(got - want) <= 1e-10L * (scale / -u) + 1e-12L + eround / -u)) vh::viol(cat("reported error, ", "regularised"), cat(in.name, " ", s.name, " step ", steps, " reported ", (double)got, " recomputed ", (double)want));
        } else {
            L got = fabsl(lib), want = fabsl(E - E0) / fabsl(E0);
            if (!(std::fabs(got - want) <= 4 * eround / fabsl(E0))) vh::viol("reported error, plain", cat(in.name, " ", s.name, " step ", steps, " reported ", (double)got, " recomputed ", (double)want));
        }
    });
    a.add_stop_condition(S(s.T));
    a.add_stop_condition([&](auto&, auto) { return steps > cap; });
    try {
        sim.run(a);
    } catch (vh::Aborted const&) {
        vh::viol("run ended the program", cat(in.name, " ", s.name));
        return;
    }
    std::string k = cat(in.fam == BS ? "BS" : in.fam == RADAU ? "Radau" : cat("Sym", in.order), in.reg ? " regularised" : " plain", harsh(kind) ? " strong" : " gentle");
    vh::count(cat("runs ", k));
    vh::count("steps", steps);
    vh::count(cat("scenario ", s.name));
    if (drift) vh::count("runs with drift");
    if (steps > cap) vh::count("runs cut at the step limit");
    else {
        vh::count("runs to the end time");
        vh::expect(fabsl((L)sim.particles().time() - s.T) <= 1e-7L * s.T, "end time reached", in.name, " ", s.name);
    }
    vh::maxi(cat("margin:energy ", in.name, " ", s.name), (double)worst);
    vh::maxi("margin:library energy", (double)worst_rep);
    vh::sample(cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", s.b.size(), ": ", steps, " steps, worst energy error/allowed ", (double)worst, ", closest approach ", (double)sep));
    if (!(worst <= 1)) vh::viol(cat("energy conserved, ", k), cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", s.b.size(), " error/allowed ", (double)worst, " allowed ", (double)allow, " closest ", (double)sep));
    if (!(worst_rep <= 1)) vh::viol("library energy equals its definition", cat(in.name, " ", s.name, " ratio ", (double)worst_rep));
}

// mutual forces between pairs besides gravity: a friction along the relative velocity, and a repulsion
template <int Dep>
struct Pair {
    constexpr static bool vel_dependent{Dep == 1};
    template <typename Particles>
    static void add_acc_to(Particles const &p, typename Particles::VectorArray &a) {
        for (size_t i = 0; i < p.number(); ++i)
            for (size_t j = 0; j < i; ++j) {
                auto d = p.pos(i) - p.pos(j);
                auto w = p.vel(i) - p.vel(j);
                auto r2 = dot(d, d) + 0.01;
                if constexpr (Dep == 1) {
                    a[i] -= w * (0.01 * p.mass(j) / r2);
                    a[j] += w * (0.01 * p.mass(i) / r2);
                } else {
                    a[i] += d * (0.02 * p.mass(j) / (r2 * r2));
                    a[j] -= d * (0.02 * p.mass(i) / (r2 * r2));
                }
            }
    }
};
using F2 = force::Interactions<force::NewtonianGrav, Pair<1>, Pair<0>>;
using F3 = force::Interactions<force::NewtonianGrav, Pair<1>>;
using F4 = force::Interactions<force::NewtonianGrav, force::Tidal>;
template <class T>
using TP = particles::TideParticles<T>;
#if PROP == 1
#define DO energy
#elif PROP == 2
template <class P, class = void>
struct requires_tide : std::false_type {};
template <class P>
struct requires_tide<P, std::void_t<decltype(std::declval<P>().tide_apsidal_const)>> : std::true_type {};
#include "dyn2.hpp"
#define DO momentum
#else
#include "dyn3.hpp"
#define DO trajectory
#endif
template <class Solver>
void go(Info in, long q, long t) {
    if (in.central) {
        for (int kind : {0, 2, 3, 5, 7}) vh::cases(cat(in.name, ", ", kind), vh::scale(q, t), [&](vh::Rng& r, long) { DO<Solver>(in, kind, r); });
        return;
    }
    for (int kind = 0; kind < (in.reg && in.fam != CONST && (in.chain || in.fam != SYM) ? 9 : 8); ++kind)
        vh::cases(cat(in.name, ", ", kind), vh::scale(q, t), [&](vh::Rng& r, long) { DO<Solver>(in, kind, r); });
}
#define GO2(I, M, ...) go<methods::M<I>>(Info{#M " with pair forces", __VA_ARGS__, true}, NQ, NT)
#define GO3(M, ...) go<methods::M<F4, TP>>(Info{#M " with tides", __VA_ARGS__, true, true}, NQ, NT)
#define GO(M, ...) go<methods::M<F>>(Info{#M, __VA_ARGS__}, NQ, NT)
template <class T, class Sys, template <class, class, class> class It, class Int, class Err>
using SimOf = Simulator<Sys, It<Int, Err, ode::PIDController<T>>>;
using Tn = Types<double, Vec3>;
using BSit = ode::BulirschStoer<integrator::LeapFrogDKD<Tn>, ode::WorstOffender<Tn>, ode::PIDController<Tn>>;
#if PROP == 3
// the correction of the very first step grows once before it converges
template <class Solver>
void slow_start(Info in) {
    scen::Scenario s;
    s.b = {{0.023470552355715619L, V(-0.031569143185232545L, -0.10690085928534782L, -0.086941716000573654L), V(-2.5260031974996644L, -0.77647015238183792L, 2.2654075259312734L)},
           {1.7283165707751384L, V(0.00042870920784019004L, 0.0014517144932554018L, 0.001180669173571622L), V(0.034303142896460942L, 0.010544470655601587L, -0.030764251667479869L)}};
    scen::round_to_double(s.b);
    s.T = 0.5434904748L, s.a = 0.145917L, s.e = 0.0718209L, s.name = "slow start";
    g_fixed = &s;
    vh::cases(cat(in.name, ", slow start"), 2, [&](vh::Rng& r, long) { trajectory<Solver>(in, 0, r); });
    g_fixed = nullptr;
}
#endif
void vh_main() {
    const long NQ = 8, NT = NQ * 12;
#if PART == 1
    GO(BS, BS, 0, false, false);
    GO(AR_BS, BS, 0, true, false);
    GO(Chain_BS, BS, 0, false, true);
    GO(AR_Chain, BS, 0, true, true);
    go<Simulator<system::RegularizedSystem<PP<Tn>, F, system::ReguType::TTL>, BSit>>(Info{"TTL_BS", BS, 0, true, false}, NQ, NT);
    go<Simulator<system::ARchainSystem<PP<Tn>, F, system::ReguType::TTL>, BSit>>(Info{"TTL_BS_Chain", BS, 0, true, true}, NQ, NT);
#elif PART == 2
    GO(BS_Plus, BS, 0, false, false);
    GO(AR_BS_Plus, BS, 0, true, false);
    GO(Chain_BS_Plus, BS, 0, false, true);
    GO(AR_Chain_Plus, BS, 0, true, true);
    GO(BS_Ext, BS, 0, false, false);
    GO(AR_Chain_ExtPlus, BS, 0, true, true);
#elif PART == 3
    GO(Radau, RADAU, 0, false, false);
    GO(AR_Radau, RADAU, 0, true, false);
    GO(Chain_Radau, RADAU, 0, false, true);
    GO(AR_Radau_Chain, RADAU, 0, true, true);
#if PROP == 3
    slow_start<methods::AR_Radau<F>>(Info{"AR_Radau", RADAU, 0, true, false});
#endif
#elif PART == 4
    GO(Radau_Plus, RADAU, 0, false, false);
    GO(AR_Radau_Chain_Plus, RADAU, 0, true, true);
    GO(AR_Radau_Ext, RADAU, 0, true, false);
    GO(Chain_Radau_Ext, RADAU, 0, false, true);
#elif PART == 5
    GO(Sym2, SYM, 2, false, false);
    GO(Sym4, SYM, 4, false, false);
    GO(Sym6, SYM, 6, false, false);
    GO(Sym8, SYM, 8, false, false);
    GO(Sym10, SYM, 10, false, false);
#elif PART == 6
    GO(AR_Sym4, SYM, 4, true, false);
    GO(AR_Sym6, SYM, 6, true, false);
    GO(AR_Sym8, SYM, 8, true, false);
    GO(AR_Sym10, SYM, 10, true, false);
    GO(Sym8_Plus, SYM, 8, false, false);
#elif PART == 7
    GO(Chain_Sym6, SYM, 6, false, true);
    GO(Chain_Sym8, SYM, 8, false, true);
    GO(Chain_Sym10, SYM, 10, false, true);
    GO(AR_Sym6_Chain, SYM, 6, true, true);
    GO(AR_Sym8_Chain, SYM, 8, true, true);
    GO(AR_Sym10_Chain, SYM, 10, true, true);
    GO(AR_Sym8_Chain_Plus, SYM, 8, true, true);
#elif PART == 8
    GO(Const_Sym2, CONST, 2, false, false);
    GO(Const_Sym4, CONST, 4, false, false);
    GO(Const_Sym6_Plus, CONST, 6, false, false);
    GO(Const_Sym8, CONST, 8, false, false);
    GO(Const_Sym10_Ext, CONST, 10, false, false);
    GO(Const_AR_Sym4, CONST, 4, true, false);
    GO(Const_AR_Sym6, CONST, 6, true, false);
    GO(Const_AR_Sym10, CONST, 10, true, false);
#elif PART == 9
    GO(Const_Chain_Sym2, CONST, 2, false, true);
    GO(Const_Chain_Sym6, CONST, 6, false, true);
    GO(Const_Chain_Sym8, CONST, 8, false, true);
    GO(Const_AR_Sym2_Chain, CONST, 2, true, true);
    GO(Const_AR_Sym4_Chain_Plus, CONST, 4, true, true);
    GO(Const_AR_Sym8_Chain, CONST, 8, true, true);
    GO(Const_Radau, CONST, 15, false, false);
    GO(Const_AR_Radau_Chain, CONST, 15, true, true);
#elif PART == 10
    GO2(F2, BS, BS, 0, false, false);
    GO2(F3, AR_BS, BS, 0, true, false);
    GO2(F2, Chain_BS, BS, 0, false, true);
    GO2(F2, AR_Chain, BS, 0, true, true);
    GO2(F3, AR_Chain_Plus, BS, 0, true, true);
    GO2(F2, Sym8, SYM, 8, false, false);
#elif PART == 11
    GO2(F2, Radau, RADAU, 0, false, false);
    GO2(F3, AR_Radau_Chain, RADAU, 0, true, true);
    GO2(F2, AR_Sym6, SYM, 6, true, false);
    GO2(F3, Const_Chain_Sym4, CONST, 4, false, true);
    GO2(F2, Const_AR_Sym6_Chain, CONST, 6, true, true);
    GO2(F3, Const_Sym8_Plus, CONST, 8, false, false);
#elif PART == 12
    GO3(BS, BS, 0, false, false);
    GO3(AR_BS, BS, 0, true, false);
    GO3(Chain_BS, BS, 0, false, true);
    GO3(AR_Chain_Plus, BS, 0, true, true);
    GO3(Radau, RADAU, 0, false, false);
    GO3(AR_Radau_Chain, RADAU, 0, true, true);
    GO3(Sym8, SYM, 8, false, false);
    GO3(AR_Sym6_Chain, SYM, 6, true, true);
#endif
}
