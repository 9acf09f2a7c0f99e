// C23: hostile but valid use under AddressSanitizer, LeakSanitizer and UBSan (or valgrind): simulators created, copied,
// moved, assigned, swapped, kept in containers, run, and destroyed in any order, on 1 to 100+ bodies; first steps and tolerances of
// every size; states that overflow; collections and observers with long and short lives.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "scen.hpp"
#include <list>
#include <optional>
using namespace hub;
using ref::Body;
using ref::L;
using ref::V;
using vh::cat;
double force::AlphaDisk::Q = 1.4;
double force::AlphaDisk::alpha = 0.05;
double force::AlphaDisk::lambda = 0.3;
int force::AlphaDisk::force = 0;
template <class T> using PT = particles::TideParticles<T>;
using Newton = force::Interactions<force::NewtonianGrav>;
using Post = force::Interactions<force::NewtonianGrav, force::PN1, force::PN2, force::PN2p5>;
using Tides = force::Interactions<force::NewtonianGrav, force::Tidal>;
using Alpha = force::Interactions<force::NewtonianGrav, force::AlphaDisk>;
using Magneto = force::Interactions<force::NewtonianGrav, force::MagnetoDisk>;
struct Friction {
    constexpr static bool vel_dependent{true};
    template <typename Particles>
    static void add_acc_to(Particles const& p, typename Particles::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] -= p.vel(i) * 0.002; }
};
struct Field {
    constexpr static bool vel_dependent{false};
    template <typename Particles>
    static void add_acc_to(Particles const& p, typename Particles::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] -= p.pos(i) * 0.01; }
};
using Outer = force::Interactions<force::NewtonianGrav, Field, Friction>;

template <class Solver>
std::vector<typename Solver::Particle> some(vh::Rng& r, int n, bool wild) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) {
        Vec x(S(3 * r.normal()), S(3 * r.normal()), S(3 * r.normal())), v(S(0.3 * r.normal()), S(0.3 * r.normal()), S(0.3 * r.normal()));
        if (wild && i > 0 && r.chance(0.15)) x = ps[(size_t)r.i(0, i - 1)].pos;          // exactly together
        else if (wild && i > 0 && r.chance(0.15)) x = ps[(size_t)r.i(0, i - 1)].pos * S(1 + r.logu(1e-15, 1e-9));
        if (wild && r.chance(0.1)) x = x * S(r.logu(1e-120, 1e120));
        double m = wild && r.chance(0.1) ? 0 : wild && r.chance(0.1) ? r.logu(1e-200, 1e200) : r.logu(0.01, 1);
        ps.emplace_back(S(m), S(r.logu(1e-6, 1e-2)), S(0.1), S(1e-4), x, v);
    }
    return ps;
}
static int some_number(vh::Rng& r, int least) {
    static const std::vector<int> special{2, 3, 4, 5, 6, 7, 15, 16, 17, 31, 32, 33, 40, 64, 65};
    int n = r.chance(0.15) ? (int)r.pick(special) : (int)r.i(2, 9);
    if (r.chance(0.01)) n = (int)r.i(90, 130);
    return std::max(n, least);
}
template <class Solver> uint64_t print_of(Solver& s) {
    uint64_t h = s.particles().number();
    auto put = [&](auto const& x) { double d = (double)(typename Solver::Scalar)(x); uint64_t u; memcpy(&u, &d, 8); h = vh::mix(h ^ u); };
    put(s.particles().time());
    for (size_t i = 0; i < s.particles().number(); ++i) { auto const& p = s.particles().pos(i); auto const& v = s.particles().vel(i); put(p.x), put(p.y), put(p.z), put(v.x), put(v.y), put(v.z), put(s.particles().mass(i)); }
    return h;
}
static std::string scratch_file() { static long n = 0; return vh::S().scratch + "/l" + std::to_string(n++) + ".txt"; }

// a few steps with random settings; a run may be given up, which is no memory error
template <class Solver>
bool walk(Solver& s, vh::Rng& r, bool wild, int steps) {
    using S = typename Solver::Scalar;
    typename Solver::RunArgs a;
    static const std::vector<double> tols{1e-15, 1e-13, 1e-10, 1e-7, 1e-3, 1e-1};
    a.rtol = S(r.pick(tols));
    if (r.chance(0.2)) a.atol = S(r.logu(1e-16, 1e-3));
    if (wild && r.chance(0.6)) a.step_size = S(r.logu(1e-30, 1e12));
    if (wild && r.chance(0.05)) a.step_size = S(r.logu(1e-300, 1e300));
    int n = 0;
    bool finite = true;
    a.add_operation([&](auto& p, auto) { ++n; for (size_t i = 0; i < p.number(); ++i) finite = finite && (double)norm(p.pos(i)) < 1e300; });
    a.add_stop_condition([&](auto&, auto) { return n > steps; });
    S t = s.particles().time();
    a.add_stop_condition(S(wild && r.chance(0.5) ? (double)t + r.logu(1e-6, 1e9) : (double)t + r.u(0.01, 2)));
    std::string file;
    if (r.chance(0.15)) file = scratch_file(), a.add_operation(callback::DefaultWriter(file));
    if (r.chance(0.15)) a.add_operation(callback::StepSlice([&](auto& p, auto) { n += p.number() == 0; }, (size_t)r.i(1, 4)));
    if (std::abs((double)t) < 1e6 && r.chance(0.15)) a.add_operation(callback::TimeSlice([&](auto& p, auto) { n += p.number() == 0; }, (double)t, (double)t + 1, 9));
    if (r.chance(0.1)) a.add_stop_condition(callback::StickyCollision());
    if (r.chance(0.1)) a.add_start_point_operation([](auto&, auto) {}), a.add_stop_point_operation([](auto&, auto) {});
    bool done = true;
    try {
        if (r.chance(0.3)) { auto b = a; a = typename Solver::RunArgs{}; s.run(b); }
        else s.run(a);
    } catch (vh::Aborted const&) { done = false; vh::count("runs given up"); }
    if (!file.empty()) { a = typename Solver::RunArgs{}; remove(file.c_str()); }
    vh::count("steps", n);
    if (!finite) vh::count("runs whose state overflowed");
    vh::count(wild ? "wild runs" : "ordinary runs");
    return done;
}
// simulators in all states of their lives
template <class Solver>
void lives(char const* name, vh::Rng& r) {
    using S = typename Solver::Scalar;
    std::vector<std::unique_ptr<Solver>> heap;
    std::list<Solver> list;
    std::optional<Solver> opt;
    std::vector<Solver> vec;
    auto fresh = [&] { auto ps = some<Solver>(r, some_number(r, 2), false); return Solver(S(r.u(-1, 1)), ps); };
    uint64_t sig = vh::hash_str(name);
    int ops = (int)r.i(6, 18);
    auto any = [&]() -> Solver* {
        switch (r.i(0, 3)) {
            case 0: return heap.empty() ? nullptr : heap[(size_t)r.i(0, (long)heap.size() - 1)].get();
            case 1: return list.empty() ? nullptr : r.chance(0.5) ? &list.front() : &list.back();
            case 2: return opt ? &*opt : nullptr;
            default: return vec.empty() ? nullptr : &vec[(size_t)r.i(0, (long)vec.size() - 1)];
        }
    };
    for (int k = 0; k < ops; ++k) {
        int op = (int)r.i(0, 14);
        sig = vh::mix(sig + op);
        Solver *a = any(), *b = any();
        switch (op) {
            case 0: heap.push_back(std::make_unique<Solver>(fresh())); break;
            case 1: if (heap.size() < 6 && a) { uint64_t h = print_of(*a); heap.push_back(std::make_unique<Solver>(*a)); vh::expect(print_of(*heap.back()) == h && print_of(*a) == h, "a copied simulator has the state of the original", name); vh::count("copies"); } break;
            case 2: if (a) { uint64_t h = print_of(*a); Solver m(std::move(*a)); vh::expect(print_of(m) == h, "a moved simulator keeps its state", name); *a = std::move(m); vh::expect(print_of(*a) == h, "a moved simulator keeps its state when it returns", name); vh::count("moves"); } break;
            case 3: if (a && b && a != b) { uint64_t h = print_of(*b); *a = *b; vh::expect(print_of(*a) == h && print_of(*b) == h, "an assigned simulator has the state of the original", name); vh::count("assignments"); } break;
            case 4: if (a) { uint64_t h = print_of(*a); Solver& self = *a; *a = self; vh::expect(print_of(*a) == h, "a simulator assigned to itself keeps its state", name); vh::count("self assignments"); } break;
            case 5: if (a && b && a != b) { uint64_t x = print_of(*a), y = print_of(*b); std::swap(*a, *b); vh::expect(print_of(*a) == y && print_of(*b) == x, "swapped simulators have exchanged their states", name); vh::count("swaps"); } break;
            case 6: list.push_back(fresh()); break;
            case 7: if (!list.empty()) list.pop_front(); break;
            case 8: opt.emplace(fresh()); break;
            case 9: opt.reset(); break;
            case 10: if (vec.size() < 5) vec.push_back(fresh()); vh::count("growing containers"); break;
            case 11: if (!vec.empty()) vec.erase(vec.begin()); break;
            case 12: if (!heap.empty()) heap.erase(heap.begin() + r.i(0, (long)heap.size() - 1)); break;
            default: if (a) walk(*a, r, false, 4); else heap.push_back(std::make_unique<Solver>(fresh()));
        }
        if (op == 13 && a) {  // the state is independent of the simulator's life
            auto copy = a->particles();
            auto n = copy.number();
            if (a == (opt ? &*opt : nullptr)) opt.reset();
            vh::expect(copy.number() == n && copy.mass().size() == n && copy.pos().size() == n, "copied particles are independent", name);
        }
        vh::count("operations on simulators");
    }
    vh::eval(sig);
}
template <class Solver>
void runs(char const* name, vh::Rng& r, bool wild, long i) {
    // a step that cannot meet its tolerance costs an adaptive solver ten thousand evaluations and more
    bool const fixed = std::string(name).rfind("Const", 0) == 0, halving = !fixed && std::string(name).find("Sym") != std::string::npos;
    using S = typename Solver::Scalar;
    int n = !wild ? some_number(r, 2) : halving ? (int)r.i(2, 4) : i % 3 == 0 ? (int)r.i(7, fixed ? 24 : 8) : (int)r.i(2, 4);
    if (wild && !fixed && std::string(name).find("Ext") != std::string::npos) n = std::min(n, 3);
    auto ps = some<Solver>(r, n, wild);
    if (!wild && i % 7 == 0) { for (auto& p : ps) p.vel = p.vel * S(1e-3); }
    Solver s(S(0), ps);
    int k = wild ? (fixed ? 12 : halving ? 1 : 3) : n > 20 ? 2 : 5;
    for (int j = 0; j < (wild && !fixed ? 2 : 3); ++j) {
        vh::count("bodies", n);
        if (n > 16) vh::count("runs beyond the inline capacity");
        if (!walk(s, r, wild, k)) break;
        vh::expect(s.particles().number() == (size_t)n && s.particles().pos().size() == (size_t)n && s.particles().vel().size() == (size_t)n, "the number of bodies is kept", name);
    }
    vh::eval(print_of(s) ^ vh::hash_str(name), true);
}
#define A(NAME, FORCE) \
    vh::cases("lives " #NAME "<" #FORCE ">", n, [](vh::Rng& r, long) { lives<methods::NAME<FORCE, PT>>(#NAME, r); }); \
    vh::cases("runs " #NAME "<" #FORCE ">", n, [](vh::Rng& r, long i) { runs<methods::NAME<FORCE, PT>>(#NAME, r, false, i); }); \
    vh::cases("wild " #NAME "<" #FORCE ">", 2 * n, [](vh::Rng& r, long i) { runs<methods::NAME<FORCE, PT>>(#NAME, r, true, i); });

void vh_main() {
#ifdef UNDER_VALGRIND
    long n = vh::scale(1, 10);
#else
    long n = vh::scale(4, 100);
#endif
#if PART == 1
    A(BS, Newton) A(AR_BS_Plus, Post) A(Chain_BS, Outer) A(AR_Chain_Plus, Newton)
#elif PART == 2
    A(AR_Chain, Tides) A(Const_Chain_Sym4, Newton) A(Sym4, Newton) A(Const_AR_Sym6_Chain, Newton)
#elif PART == 3
    A(Sym8, Post) A(AR_Sym8, Alpha) A(AR_Sym8_Chain_Plus, Newton) A(Const_Sym2, Newton)
#elif PART == 4
    A(Radau, Newton) A(Chain_Radau, Outer) A(AR_Radau_Chain_Plus, Newton) A(Const_Radau, Newton)
#elif PART == 5
    A(Chain_Sym10, Outer) A(AR_Sym10, Newton) A(AR_BS, Magneto) A(Const_Chain_Radau, Tides)
#elif PART == 6
    A(BS_Ext, Newton) A(AR_Chain_Ext, Post) A(Const_Chain_Sym6_Ext, Newton) A(AR_Radau_ExtPlus, Newton)
#endif
}
