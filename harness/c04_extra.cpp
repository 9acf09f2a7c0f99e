// C04: extra forces change the trajectory by the same amount in every formulation: observed states of runs against an independent
// extended-precision integration of the same equations of motion, in units of the problem's own sensitivity.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "scen.hpp"
#include "laws.hpp"
using namespace hub;
using ref::Body;
using vh::cat;
// ---- user forces; strengths are set per run
static thread_local double gS = 0, gD = 0, gT = 0, gW = 0, gA = 0, gH = 1, gP = 0, gR = 0;
struct Spring {  // a field: velocity independent
    constexpr static bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { auto q = p.pos(i); a[i].x -= gS * q.x; a[i].y -= (2 * gS) * q.y; a[i].z -= (3 * gS) * q.z + gA; }
    }
};
struct Drag {  // a medium at rest: velocity dependent
    constexpr static bool vel_dependent{true};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { auto q = p.vel(i); a[i].x -= gD * q.x; a[i].y -= (0.5 * gD) * q.y - (2 * gD) * q.x; a[i].z -= (3 * gD) * q.z; }
    }
};
struct Tug {  // depends on the time
    constexpr static bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        auto s = gT * cos(gW * (double)p.time());
        for (size_t i = 0; i < p.number(); ++i) { a[i].x += s; a[i].y -= 2 * s; a[i].z += 0.5 * s; }
    }
};
template <bool Dep>
struct Pair {
    constexpr static bool vel_dependent{Dep};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i)
            for (size_t j = 0; j < i; ++j) {
                auto d = p.pos(i) - p.pos(j);
                auto w = p.vel(i) - p.vel(j);
                auto r2 = dot(d, d) + gH;
                if constexpr (Dep) {
                    a[i] -= w * (gP * p.mass(j) / r2);
                    a[j] += w * (gP * p.mass(i) / r2);
                } else {
                    a[i] += d * (gR * p.mass(j) / (r2 * r2));
                    a[j] -= d * (gR * p.mass(i) / (r2 * r2));
                }
            }
    }
};
// ---- the same, independently
enum { SPRING = 1, DRAG = 2, TUG = 4, PAIRV = 8, PAIRX = 16, PN = 32, HIGHPN = 64, TIDES = 128 };
struct Extra { std::vector<L> R, k, tau; };
static void extra_acc(int set, Extra const& x, std::vector<Body> const& b, L t, std::vector<V>& a) {
    size_t n = b.size();
    for (size_t i = 0; i < n; ++i) {
        V r = b[i].r, v = b[i].v;
        if (set & SPRING) a[i] += V(-(L)gS * r.x, -2 * (L)gS * r.y, -3 * (L)gS * r.z - (L)gA);
        if (set & DRAG) a[i] += V(-(L)gD * v.x, -(L)gD / 2 * v.y + 2 * (L)gD * v.x, -3 * (L)gD * v.z);
        if (set & TUG) { L s = (L)gT * cosl((L)gW * t); a[i] += V(s, -2 * s, s / 2); }
        for (size_t j = 0; j < n; ++j)
            if (i != j) {
                V d = r - b[j].r, w = v - b[j].v;
                L r2 = ref::dot(d, d) + (L)gH;
                if (set & PAIRV) a[i] += w * (-(L)gP * b[j].m / r2);
                if (set & PAIRX) a[i] += d * ((L)gR * b[j].m / (r2 * r2));
                if (set & (PN | HIGHPN | TIDES)) {
                    RB A{b[i].m, x.R[i], x.k[i], x.tau[i], b[i].r, b[i].v}, B{b[j].m, x.R[j], x.k[j], x.tau[j], b[j].r, b[j].v};
                    V q;
                    L m;
                    auto add = [&](Law l) { pair_law(l, A, B, q, m); a[i] += q; };
                    if (set & PN) add(PN1_);
                    if (set & HIGHPN) add(PN2_), add(PN25_);
                    if (set & TIDES) {  // equilibrium tide with constant lag (Hut 1981), radial part, raised on each of the two by the other
                        L s2 = ref::dot(d, d), lag = ref::dot(d, w) / s2;
                        auto on = [&](size_t o, size_t by) { L q5 = x.R[o] * x.R[o]; q5 *= q5 * x.R[o]; return 3 * x.k[o] * q5 * b[by].m * b[by].m * (1 + 3 * x.tau[o] * lag); };
                        a[i] += d * (-(on(i, j) + on(j, i)) / (b[i].m * s2 * s2 * s2 * s2));
                    }
                }
            }
    }
}
static bool advance(int set, Extra const& x, std::vector<Body>& b, L t0, L dt) {
    size_t n = b.size();
    ref::State y(6 * n);
    for (size_t i = 0; i < n; ++i) {
        L* q = &y[3 * i];
        q[0] = b[i].r.x, q[1] = b[i].r.y, q[2] = b[i].r.z;
        q = &y[3 * n + 3 * i];
        q[0] = b[i].v.x, q[1] = b[i].v.y, q[2] = b[i].v.z;
    }
    std::vector<Body> w = b;
    std::vector<V> a(n);
    auto unpack = [&](ref::State const& s) { for (size_t i = 0; i < n; ++i) w[i].r = V(s[3 * i], s[3 * i + 1], s[3 * i + 2]), w[i].v = V(s[3 * n + 3 * i], s[3 * n + 3 * i + 1], s[3 * n + 3 * i + 2]); };
    ref::Rhs f = [&](L t, ref::State const& s, ref::State& d) {
        unpack(s);
        for (auto& q : a) q = V();
        ref::gravity(w, a);
        extra_acc(set, x, w, t0 + t, a);
        for (size_t i = 0; i < n; ++i) {
            d[3 * i] = w[i].v.x, d[3 * i + 1] = w[i].v.y, d[3 * i + 2] = w[i].v.z;
            d[3 * n + 3 * i] = a[i].x, d[3 * n + 3 * i + 1] = a[i].y, d[3 * n + 3 * i + 2] = a[i].z;
        }
    };
    L te = ref::gbs(f, y, 0, dt, dt * 1e-3L, 1e-16L);
    if (te != te) return false;
    unpack(y);
    b = w;
    return true;
}
struct Info {
    const char* name;
    const char* family;
    bool reg, chain;
    int order = 0;
};
inline L max_speed(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.v)); return m; }
inline L max_dist(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.r)); return m; }
inline L min_sep(std::vector<Body> const& b) { L m = INFINITY; for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) m = std::min(m, ref::dist(b[i].r, b[j].r)); return m; }
inline std::vector<Body> disturbed(std::vector<Body> b, vh::Rng& r, L eps) {
    for (auto& q : b) q.r += scen::iso(r) * (eps * ref::norm(q.r)), q.v += scen::iso(r) * (eps * ref::norm(q.v));
    return b;
}
struct Seen { L t; std::vector<Body> b; L ratio; };
template <class Solver>
void check_run(Info in, int set, const char* forces, int kind, vh::Rng& r) {
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    using P = typename Solver::Particle;
    bool drift = r.chance(0.3);
    auto s = scen::make(r, kind, drift);
    Extra x;
    size_t n = s.b.size();
    x.R.assign(n, 0), x.k.assign(n, 0), x.tau.assign(n, 0);
    if (set & (PN | HIGHPN)) {  // shrink to where speeds are 1e-3 .. 0.1 of that of light
        L v0 = 0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) v0 = std::max(v0, sqrtl((s.b[i].m + s.b[j].m) / ref::dist(s.b[i].r, s.b[j].r)));
        L want = (L)consts::C * (L)r.logu(2e-3, kind == 1 || kind == 4 ? 0.01 : 0.05), f = (v0 / want) * (v0 / want);
        for (auto& q : s.b) q.r = q.r * f, q.v = q.v / sqrtl(f);
        scen::round_to_double(s.b);
        s.T = (double)(s.T * f * sqrtl(f)), s.a *= f;
    }
    if (set & TIDES) {
        for (size_t i = 0; i < n; ++i) {
            L near = INFINITY;
            for (size_t j = 0; j < n; ++j) if (i != j) near = std::min(near, ref::dist(s.b[i].r, s.b[j].r));
            L q = kind == 2 ? s.a / (1 + s.e) : s.a > 0 ? s.a * fabsl(1 - s.e) : 0.15L * near;
            L heavy = 0;
            for (size_t j = 0; j < n; ++j) if (i != j) heavy = std::max(heavy, s.b[j].m);
            x.R[i] = r.chance(0.15) ? 0 : (L)(double)(q * (L)r.u(0.3, 1) * std::min((L)0.35, powl((L)0.02 * s.b[i].m / heavy, (L)0.2)));
            x.k[i] = r.chance(0.15) ? 0 : r.u(0.05, 0.5);
            x.tau[i] = r.chance(0.3) ? 0 : (L)(double)(sqrtl(x.R[i] * x.R[i] * x.R[i] / s.b[i].m) * (L)r.u(0, 0.5));
        }
    }
    // fields and media from weak to about as strong as the slowest motion
    L size = max_dist(s.b);
    double eta = r.logu(1e-3, kind == 2 || kind == 7 ? 0.3 : 1);
    gS = eta / (double)(s.T * s.T), gA = gS * (double)size, gD = eta * 0.5 / (double)s.T, gT = gA, gH = (double)(size * size) * r.logu(1e-3, 0.1), gP = gD * gH / (double)ref::mass(s.b), gR = 10 * gS * gH * gH / (double)ref::mass(s.b), gW = r.u(1, 20) / (double)s.T;
    s.T = (double)s.T;
    L t0 = 0;
    std::vector<P> ps;
    for (size_t i = 0; i < n; ++i) {
        auto& q = s.b[i];
        Vec pos(S(q.r.x), S(q.r.y), S(q.r.z)), vel(S(q.v.x), S(q.v.y), S(q.v.z));
        if constexpr (std::is_constructible_v<P, S, S, S, S, Vec, Vec>)
            ps.push_back(P(S(q.m), S(x.R[i]), S(x.k[i]), S(x.tau[i]), pos, vel));
        else
            ps.push_back(P(S(q.m), pos, vel));
    }
    long steps = 0, cap = in.order == 4 ? 1500 : 3000;
    Solver sim(S(t0), ps);
    typename Solver::RunArgs a;
    std::vector<Seen> seen;
    L ratio = 0;
    a.add_operation([&](auto& p, auto) {
        ++steps;
        auto b = scen::bodies(p);
        ratio = std::max(ratio, max_dist(b) / min_sep(b));
        seen.push_back({(L)p.time(), b, ratio});
    });
    a.add_stop_condition(S(s.T));
    a.add_stop_condition([&](auto&, auto) { return steps > cap; });
    try {
        sim.run(a);
    } catch (vh::Aborted const&) {
        vh::viol("run ended the program", cat(in.name, " ", forces, " ", s.name));
        return;
    }
    std::vector<size_t> pick;
    size_t m = seen.size();
    pick.push_back((size_t)r.i(1, m - 1));
    pick.push_back(m - 1);
    std::sort(pick.begin(), pick.end(), [&](size_t i, size_t j) { return seen[i].t < seen[j].t; });
    const L eps = 1e-10L;
    auto main = s.b, bare = s.b;
    std::vector<std::vector<Body>> off{disturbed(main, r, eps), disturbed(main, r, eps)};
    L t = 0, worst = 0, amp = 0, effect = 0;
    const bool strong = kind == 1 || kind == 4;
    L limit = (strong ? (in.reg ? 5e-11L : 3e-10L) : 5e-12L) * ((set & (HIGHPN | PN)) ? 5 : 1);
    for (size_t i = 0; i < pick.size(); ++i) {
        Seen const& o = seen[pick[i]];
        L dt = o.t - t;
        bool ok = true;
        if (dt != 0) {
            ok = advance(set, x, main, t, dt);
            for (auto& q : off) ok = ok && advance(set, x, q, t, dt);
            ok = ok && advance(0, x, bare, t, dt);
        }
        if (!ok) { vh::count("reference not available"); return; }
        t = o.t;
        L er = 0, ev = 0, sr = max_dist(main), sv = max_speed(main), fr = 0;
        for (size_t k = 0; k < n; ++k) er = std::max(er, ref::dist(main[k].r, o.b[k].r)), ev = std::max(ev, ref::dist(main[k].v, o.b[k].v)), fr = std::max(fr, ref::dist(main[k].r, bare[k].r));
        for (auto& q : off) {
            L dr = 0, dv = 0;
            for (size_t k = 0; k < n; ++k) dr = std::max(dr, ref::dist(main[k].r, q[k].r)), dv = std::max(dv, ref::dist(main[k].v, q[k].v));
            sr += dr / eps, sv += dv / eps;
        }
        L lim = limit + 5e-14L * (pick[i] + 1) + 30 * 0x1p-52L * (in.chain ? 1 : o.ratio) * sqrtl((L)pick[i] + 1), accel = 0;
        for (size_t u = 0; u < n; ++u) for (size_t w = 0; w < u; ++w) { L d = ref::dist(main[u].r, main[w].r); accel = std::max(accel, (main[u].m + main[w].m) / (d * d)); }
        sr += max_speed(main) * fabsl(t), sv += accel * fabsl(t);
        amp = std::max(amp, sr / max_dist(main));
        if (amp > 1e6L) { vh::count("states dropped, chaotic", pick.size() - i); break; }
        L e = std::max(er / sr, ev / sv) / lim;
        effect = std::max(effect, fr / (sr * lim));
        vh::count("states compared");
        if (!(e <= worst)) worst = e;
        vh::eval(vh::mix(pick[i]) ^ vh::hash_str(in.name) ^ vh::mix(set) ^ vh::mix(vh::bits_of((double)o.b[0].r.x)));
    }
    vh::count(cat("runs ", forces));
    vh::count(cat("runs ", in.family, in.reg ? " regularised" : "", in.chain ? " chain" : ""));
    vh::count(cat("scenario ", s.name));
    if (effect > 1e4L) vh::count("runs in which the extra force moves the bodies by over 10000 allowances");
    vh::maxi(cat("margin:", in.family, in.reg ? " regularised" : "", in.chain ? " chain" : "", ", ", forces, ", ", s.name), (double)worst);
    vh::sample(cat(in.name, " ", forces, " ", s.name, " N=", n, ": ", steps, " steps, error/allowed ", (double)worst, ", displacement by the force/allowed ", (double)effect));
    if (steps > cap) vh::count(cat("runs cut at the step limit, ", in.family));
    if (!(worst <= 1)) vh::viol(cat("trajectory with ", forces, ", ", in.family, in.reg ? " regularised" : "", in.chain ? " chain" : ""), cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", n, " e=", (double)s.e, " ", steps, " steps: error/allowed ", (double)worst, " amplification ", (double)amp, " force effect/allowed ", (double)effect));
}
using force::Interactions;
using force::NewtonianGrav;
using Tn = Types<double, Vec3>;
template <class T>
using PP = particles::PointParticles<T>;
template <class T>
using TP = particles::TideParticles<T>;
#if PART == 1
#define FORCE Interactions<NewtonianGrav, Spring>
#define SET SPRING
#elif PART == 2
#define FORCE Interactions<NewtonianGrav, Drag>
#define SET DRAG
#elif PART == 3
#define FORCE Interactions<NewtonianGrav, Drag, Tug>
#define SET (DRAG | TUG)
#elif PART == 4
#define FORCE Interactions<NewtonianGrav, Pair<true>, Pair<false>>
#define SET (PAIRV | PAIRX)
#elif PART == 5
#define FORCE Interactions<NewtonianGrav, force::PN1>
#define SET PN
#elif PART == 6
#define FORCE Interactions<NewtonianGrav, force::PN1, force::PN2, force::PN2p5>
#define SET (PN | HIGHPN)
#elif PART == 7
#define FORCE Interactions<NewtonianGrav, force::Tidal>
#define SET TIDES
#define PART_P TP
#elif PART == 8
#define FORCE Interactions<NewtonianGrav, force::PN1, force::Tidal, Spring>
#define SET (TIDES | PN | SPRING)
#define PART_P TP
#elif PART == 9
#define FORCE Interactions<NewtonianGrav, Tug>
#define SET TUG
#endif
#ifndef PART_P
#define PART_P PP
#endif
using F = FORCE;
template <class Sys>
using BSof = Simulator<Sys, ode::BulirschStoer<integrator::LeapFrogDKD<Tn>, ode::WorstOffender<Tn>, ode::PIDController<Tn>>>;
template <class Solver>
void go(Info in, long q) {
    const char* f = SET == SPRING ? "field" : SET == DRAG ? "drag" : SET == (DRAG | TUG) ? "drag and time-dependent field" : SET == TUG ? "time-dependent field" : SET == (PAIRV | PAIRX) ? "friction and repulsion" : SET == PN ? "PN1" : SET == (PN | HIGHPN) ? "PN1+PN2+PN2.5" : SET == TIDES ? "tides" : "PN1, tides and field";
    for (int kind : {0, 1, 2, 3, 4, 5, 6, 7}) {
        if ((SET & TIDES) && kind == 4) continue;
        if ((SET & PN) && (SET & TIDES) && kind != 0 && kind != 3) continue;
        vh::cases(cat(in.name, ", ", kind), vh::scale(q, 24), [&](vh::Rng& r, long) { check_run<Solver>(in, SET, f, kind, r); });
    }
}
#define GO(M, ...) go<methods::M<F, PART_P>>(Info{#M, __VA_ARGS__}, 2)
void vh_main() {
    GO(BS, "BS", false, false);
    GO(AR_BS, "BS", true, false);
    GO(Chain_BS, "BS", false, true);
    GO(AR_Chain, "BS", true, true);
    GO(AR_Chain_Plus, "BS", true, true);
    go<BSof<system::RegularizedSystem<PART_P<Tn>, F, system::ReguType::TTL>>>(Info{"TTL_BS", "BS", true, false}, 2);
    go<BSof<system::ARchainSystem<PART_P<Tn>, F, system::ReguType::TTL>>>(Info{"TTL_BS_Chain", "BS", true, true}, 2);
    GO(Radau, "Radau", false, false);
    GO(AR_Radau, "Radau", true, false);
    GO(Chain_Radau, "Radau", false, true);
    GO(AR_Radau_Chain, "Radau", true, true);
    GO(Sym6, "Sym", false, false, 6);
    GO(AR_Sym8, "Sym", true, false, 8);
    GO(Chain_Sym8, "Sym", false, true, 8);
    GO(AR_Sym6_Chain, "Sym", true, true, 6);
}
