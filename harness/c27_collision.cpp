// C27: the collision monitor reports contact exactly when two bodies touch, and stops a run at the first such state.
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using ref::V;
using system::ReguType;
using F = force::Interactions<force::NewtonianGrav>;
template <class P, class I> using Simple = system::SimpleSystem<P, I>;
template <class P, class I> using Chain_ = system::ChainSystem<P, I>;
template <class P, class I> using Regu = system::RegularizedSystem<P, I>;
template <class P, class I> using ReguTTL = system::RegularizedSystem<P, I, ReguType::TTL>;
template <class P, class I> using ReguNone = system::RegularizedSystem<P, I, ReguType::None>;
template <class P, class I> using ARC = system::ARchainSystem<P, I>;
template <class P, class I> using ARCTTL = system::ARchainSystem<P, I, ReguType::TTL>;

template <class S> static L raw(S const& s) { return (L)s; }
// verdict from an independent scan in extended precision: 1 touching, 0 apart, -1 too close to rounding to tell
template <class Sys>
static int truth(Sys const& s, L u) {
    size_t n = s.number();
    int v = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) {
            V a{(L)s.pos(i).x, (L)s.pos(i).y, (L)s.pos(i).z}, b{(L)s.pos(j).x, (L)s.pos(j).y, (L)s.pos(j).z};
            L d = ref::dist(a, b), R = (L)s.radius(i) + (L)s.radius(j);
            L zone = 8 * u * (d + R);
            if (d <= R - zone) return 1;
            if (d < R + zone) v = -1;
        }
    return v;
}
template <class Part, class S, class Vec>
static Part make(S m, S r, Vec p, Vec v) {
    if constexpr (std::is_constructible_v<Part, S, S, S, S, Vec, Vec>) return Part(m, r, S(0.014), S(0.1), p, v);
    else return Part(m, r, p, v);
}
template <template <class, class> class SysT, template <class> class PT, class Ty>
static void direct(vh::Rng& rng, std::string form, bool one_ok) {
    using Sys = SysT<PT<Ty>, F>;
    using Part = typename Sys::Particle;
    using S = typename Ty::Scalar;
    using Vec = typename Ty::Vector;
    const L u = std::is_same_v<S, long double> ? 0x1p-64L : 0x1p-53L;
    int n = (int)rng.i(one_ok ? 1 : 2, rng.chance(0.2) ? 40 : 8);
    double scale = std::exp2(rng.i(-30, 30));
    std::vector<Part> ps;
    double dens = rng.logu(0.003, 0.6) / n;
    bool hetero = rng.chance(0.4), inside = rng.chance(0.15);
    for (int i = 0; i < n; ++i) {
        double r = hetero ? rng.logu(1e-9, 1) * (i == 0 ? 1 : dens) : dens * rng.u(0.5, 1.5);
        if (rng.chance(0.1)) r = 0;
        if (inside && i == 0) r = 20;
        ps.push_back(make<Part, S, Vec>(S(rng.logu(0.05, 1)), S(r * scale), Vec(S(scale * rng.normal()), S(scale * rng.normal()), S(scale * rng.normal())), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal()))));
    }
    Sys s(S(0), ps);
    for (int i = 0; i < n; ++i) vh::expect((L)s.radius(i) == (L)ps[i].radius, "radii are kept", form, " N=", n, " body ", i);
    callback::StickyCollision c;
    int t = truth(s, u);
    vh::eval(rng.next(), t >= 0);
    if (t < 0) { vh::count("too close to tell"); return; }
    static const double steps[] = {0.1, 0, -3, 1e300, 1e-300};
    bool got = c(s, S(steps[rng.i(0, 4)])), again = c(s, S(steps[rng.i(0, 4)]));
    vh::count(t ? "random touching" : "random apart");
    vh::count("direct " + form);
    vh::expect(got == (t == 1) && again == got, t ? "touching bodies are reported" : "separate bodies are not reported", form, " N=", n, " scale ", scale, " reported ", got, " then ", again);
}
// exact arrangements: bodies far from each other on a grid of exact coordinates; one pair at a chosen exact distance
template <template <class, class> class SysT, template <class> class PT, class Ty>
static void exact(vh::Rng& rng, std::string form, bool chain) {
    using Sys = SysT<PT<Ty>, F>;
    using Part = typename Sys::Particle;
    using S = typename Ty::Scalar;
    using Vec = typename Ty::Vector;
    int n = (int)rng.i(2, rng.chance(0.2) ? 40 : 9);
    double sc = std::exp2(rng.chance(0.2) ? rng.i(-300, 300) : rng.i(-20, 20));
    std::vector<V> pos;
    std::vector<int> cell(n);
    for (int i = 0; i < n; ++i) { cell[i] = i; }
    for (int i = n - 1; i > 0; --i) std::swap(cell[i], cell[rng.i(0, i)]);
    auto at = [&](int c) { return V{(L)(1024 * (c % 4)), (L)(1024 * ((c / 4) % 4)), (L)(1024 * (c / 16))}; };
    for (int i = 0; i < n; ++i) pos.push_back(at(cell[i]));
    int a = (int)rng.i(0, n - 1), b = (int)rng.i(0, n - 2);
    if (b >= a) ++b;
    // integer vectors with integer length
    static const int trip[][4] = {{1, 0, 0, 1}, {3, 4, 0, 5}, {2, 3, 6, 7}, {1, 4, 8, 9}, {4, 4, 7, 9}, {2, 6, 9, 11}, {6, 6, 7, 11}, {3, 4, 12, 13}, {2, 5, 14, 15}, {2, 10, 11, 15}, {12, 15, 16, 25}};
    auto& q = trip[rng.i(0, 10)];
    int perm = (int)rng.i(0, 2);
    L comp[3] = {rng.sign() * (L)q[perm], rng.sign() * (L)q[(perm + 1) % 3], rng.sign() * (L)q[(perm + 2) % 3]};
    pos[b] = pos[a] + V{comp[0], comp[1], comp[2]};
    int kind = (int)rng.i(0, 3);  // 0 exact contact, 1 just apart, 2 just overlapping, 3 one body is a point at exact contact
    L R = q[3];
    L eps = 1e-12L;
    if (kind == 1) R *= 1 - eps;
    if (kind == 2) R *= 1 + eps;
    L ra = kind == 3 ? R : (kind == 0 ? (L)rng.i(1, 4 * q[3]) / 4 : R * rng.u(0, 1));
    L rb = R - ra;
    if (kind == 3 && rng.chance(0.5)) std::swap(ra, rb);
    std::vector<Part> ps;
    for (int i = 0; i < n; ++i) {
        L r = i == a ? ra : i == b ? rb : (L)rng.u(0, 100);
        ps.push_back(make<Part, S, Vec>(S(rng.logu(0.05, 1)), S((double)(r * sc)), Vec(S((double)(pos[i].x * sc)), S((double)(pos[i].y * sc)), S((double)(pos[i].z * sc))), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal()))));
    }
    Sys s(S(0), ps);
    // chain systems rebuild positions from differences; judge the arrangement they hold only if it is still exact
    bool held = true;
    for (int k : {a, b}) held = held && (L)s.pos(k).x == pos[k].x * sc && (L)s.pos(k).y == pos[k].y * sc && (L)s.pos(k).z == pos[k].z * sc;
    vh::eval(rng.next(), held);
    if (!held) { vh::count("arrangement not held exactly"); if (kind == 0 || kind == 3) return; }
    callback::StickyCollision c;
    bool got = c(s, S(rng.chance(0.3) ? 0 : 0.1)), want = kind != 1;
    static const char* nm[] = {"exact contact is reported", "bodies just apart are not reported", "bodies just overlapping are reported", "a point at the surface is reported"};
    vh::count(std::string("exact: ") + nm[kind]);
    vh::expect(got == want, nm[kind], form, " N=", n, " pair ", a, ",", b, " distance ", q[3], " scale ", sc);
}
// as a stop condition: every observed state is recorded
template <class Solver>
static void run(vh::Rng& rng, std::string form, int budget) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    const L u = std::is_same_v<S, long double> ? 0x1p-64L : 0x1p-53L;
    int n = (int)rng.i(2, 5);
    std::vector<P> ps;
    bool fall = rng.chance(0.7);
    double r0 = rng.logu(0.005, 0.12);
    for (int i = 0; i < n; ++i) {
        Vec p(S(rng.normal()), S(rng.normal()), S(rng.normal())), v(S(0.25 * rng.normal()), S(0.25 * rng.normal()), S(0.25 * rng.normal()));
        if (!fall) { p = p * S(3); v = v * S(0.5); }
        double r = r0 * rng.u(0.3, 1.5);
        if (!fall) r *= 0.01;
        ps.push_back(make<P, S, Vec>(S(rng.logu(0.2, 1)), S(r), p, v));
    }
    Solver sim(S(0), ps);
    typename Solver::RunArgs args;
    std::vector<int> seen;
    std::vector<L> times;
    struct Cap {};
    bool capped = false;
    L tend = fall ? 2 + rng.u() : 0.5;
    args.add_operation([&](auto& p, auto) { seen.push_back(truth(p, u)); times.push_back((L)p.time()); });
    args.add_stop_condition(S(tend));
    args.add_stop_condition(callback::StickyCollision{});
    args.add_stop_condition([&](auto&, auto) { if ((int)seen.size() > budget) capped = true; return capped; });
    args.rtol = 1e-10;
    sim.run(args);
    vh::eval(rng.next());
    // the last state may be recorded once in the loop and once at the end of the run
    if (seen.empty()) { vh::expect(false, "states are observed", form); return; }
    vh::count("states observed in runs", seen.size());
    int first = -1;
    for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == 1) { first = (int)i; break; }
    bool vague = false;
    for (int q : seen) vague = vague || q < 0;
    if (vague) { vh::count("too close to tell"); return; }
    int trail = 0;
    for (int q : seen) trail += q == 1;
    bool ended_by_time = fabsl(times.back() - tend) <= 1e-8L * tend;
    if (first >= 0) {
        vh::count("runs with contact");
        vh::count("contact " + form);
        vh::expect(times[first] == times.back() && trail == (int)seen.size() - first && trail <= 2, "a run stops at the first observed contact", form, " N=", n, " first contact at observation ", first, " of ", seen.size(), " times ", times[first], " last ", times.back());
    } else if (!capped) {
        vh::count("runs without contact");
        vh::expect(ended_by_time, "a run without contact goes on", form, " N=", n, " ended at ", times.back(), " of ", tend);
    }
}
void vh_main() {
    using D = Types<double, Vec3>;
    using K = Types<double_k, Vec3>;
    using X = Types<long double, Vec3>;
    long n1 = vh::scale(15000, 400000), n2 = vh::scale(15000, 400000), n3 = vh::scale(2500, 60000);
    using particles::SizeParticles;
    using particles::TideParticles;
#define SYS(T, PT, TY, NAME, ONE) \
    vh::cases("direct " NAME, n1, [](vh::Rng& r, long) { direct<T, PT, TY>(r, NAME, ONE); }); \
    vh::cases("exact " NAME, n2, [](vh::Rng& r, long) { exact<T, PT, TY>(r, NAME, true); });
#if PART == 1
    SYS(Simple, SizeParticles, D, "plain size double", true)
    SYS(Simple, TideParticles, K, "plain tide double_k", true)
    SYS(Chain_, SizeParticles, D, "chain size double", false)
    SYS(Chain_, TideParticles, X, "chain tide long double", false)
    SYS(Regu, SizeParticles, D, "LogH size double", false)
    SYS(Regu, SizeParticles, X, "LogH size long double", false)
    SYS(ReguTTL, TideParticles, D, "TTL tide double", false)
    SYS(ReguNone, SizeParticles, K, "None size double_k", false)
    SYS(ARC, SizeParticles, D, "chain LogH size double", false)
    SYS(ARC, TideParticles, K, "chain LogH tide double_k", false)
    SYS(ARCTTL, SizeParticles, K, "chain TTL size double_k", false)
#else
#define RUN(M, P, NAME) vh::cases("run " NAME, n3, [](vh::Rng& r, long) { run<M<F, P>>(r, NAME, 4000); });
#if PART == 2
    RUN(methods::DefaultMethod, SizeParticles, "default")
    RUN(methods::BS, SizeParticles, "BS")
    RUN(methods::AR_Radau_Chain_Plus, TideParticles, "AR_Radau_Chain_Plus")
#else
    RUN(methods::Chain_Sym6, SizeParticles, "Chain_Sym6")
    RUN(methods::AR_Sym6_Plus, SizeParticles, "AR_Sym6_Plus")
    RUN(methods::Sym4, TideParticles, "Sym4")
#endif
#endif
}
