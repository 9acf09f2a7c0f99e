// C18 (part 2): what the adaptive solvers do with the requested tolerance: error of every accepted step against the exact
// Kepler motion or an independent integration, growth and shrink of the steps, cost, accuracy of whole runs by tolerance.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "scen.hpp"
using namespace hub;
using ref::Body;
using ref::L;
using ref::V;
using vh::cat;
using F = force::Interactions<force::NewtonianGrav>;
template <class T>
using PP = particles::PointParticles<T>;
struct Info { const char* name; int order; bool reg, chain; };  // order 0: Bulirsch-Stoer, 15: Radau

inline bool advance(std::vector<Body>& b, L dt) {
    if (b.size() == 2) {
        V c = ref::com(b), u = ref::momentum(b) / ref::mass(b), r = b[1].r - b[0].r, v = b[1].v - b[0].v;
        L M = ref::mass(b);
        ref::kepler_advance(M, r, v, dt);
        c = c + u * dt;
        b[0].r = c - r * (b[1].m / M), b[1].r = c + r * (b[0].m / M);
        b[0].v = u - v * (b[1].m / M), b[1].v = u + v * (b[0].m / M);
        return true;
    }
    return ref::evolve(b, dt, nullptr, 1e-17L, 1e-2L * dt);
}
// distance of two states in units of the size of the state: separations of pairs and their relative velocities
inline L state_error(std::vector<Body> const& x, std::vector<Body> const& y, L* vrel = nullptr) {
    L d = 0, sr = 0, sv = 0, dr = 0, dv = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        sr = std::max(sr, ref::norm(y[i].r)), sv = std::max(sv, ref::norm(y[i].v));
        dr = std::max(dr, ref::dist(x[i].r, y[i].r)), dv = std::max(dv, ref::dist(x[i].v, y[i].v));
    }
    (void)d;
    if (vrel) *vrel = sv / sr;
    return std::max(dr / sr, dv / sv);
}
inline L stiffness(std::vector<Body> const& b) {
    L w = 0;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) {
        L d = ref::dist(b[i].r, b[j].r), v = ref::dist(b[i].v, b[j].v);
        w = std::max(w, sqrtl((b[i].m + b[j].m) / (d * d * d)) + v / d);
    }
    return w;
}
// the asymptotic error estimates need steps small enough to mean something
inline double loosest(Info in) { return in.order == 0 ? 1e-4 : in.order == 10 ? 1e-7 : in.order == 8 ? 1e-6 : in.order == 6 ? 1e-4 : 1e-3; }
// error of every accepted step
template <class Solver>
void steps(Info in, vh::Rng& r, long) {
    using S = typename Solver::Scalar;
    int kind = (int)r.pick(std::vector<int>{0, 0, 2, 5, 3});
    auto s = scen::make(r, kind, r.chance(0.3));
    bool two = s.b.size() == 2;
    double rtol = in.order == 15 ? 1e-14 : r.logu(in.order == 2 ? 1e-7 : 1e-12, loosest(in)), atol = 0;
    if (in.order != 15 && r.chance(0.2)) atol = rtol * (double)ref::norm(s.b[0].r) * r.logu(1e-3, 1), rtol = r.chance(0.5) ? rtol : rtol * 1e-3;
    Solver sim(S(0), scen::particles_of<Solver>(s.b));
    typename Solver::RunArgs a;
    a.rtol = S(rtol), a.atol = S(atol);
    struct St { L t, h, scale; std::vector<Body> b; };
    std::vector<St> log;
    long cap = two ? 400 : 60;
    if (in.order == 2) cap = 60;
    a.add_operation([&](auto& p, auto h) { log.push_back({(L)p.time(), (L)h, (L)p.step_scale(), scen::bodies(p)}); });
    a.add_stop_condition(S(s.T));
    a.add_stop_condition([&](auto&, auto) { return (long)log.size() > cap; });
    // a run at another tolerance before: only the present one counts
    bool warm = !in.reg && r.chance(0.3);
    if (warm) {
        typename Solver::RunArgs w;
        w.rtol = S(in.order == 2 ? 1e-4 : r.chance(0.5) ? 1e-3 : 1e-11);
        long k = 0;
        w.add_stop_condition([&](auto& p, auto h) { return ++k > 3 || p.time() + 2 * h > S(s.T); });
        sim.run(w);
        a.step_size = S(0);
    }
    try {
        sim.run(a);
    } catch (vh::Aborted const&) {
        vh::viol("run ended the program", cat(in.name, " ", s.name, " rtol ", rtol));
        return;
    }
    size_t n = log.size();
    if (n < 3) return;
    L E0 = ref::energy(log[0].b);
    L worst = 0, sum = 0, tighter = 0;
    L lo = INFINITY, hi = 0;
    L size = 0;
    for (auto& q : log[0].b) size = std::max(size, ref::norm(q.r));
    size_t budget = two ? n : 12, stride = std::max<size_t>(1, n / budget);
    for (size_t i = 0; i + 1 < n; ++i) {
        L dt = log[i + 1].t - log[i].t;
        // accepted step in the units of the solver, where it is the time itself
        if (!in.reg && i + 2 < n && dt > 0 && fabsl(log[i + 1].h - ((L)(double)s.T - log[i + 1].t)) > 1e-9L * fabsl(log[i + 1].h)) { L g = log[i + 1].h / dt; lo = std::min(lo, g), hi = std::max(hi, g); }
        if (i % stride) continue;
        auto b = log[i].b;
        if (!advance(b, dt)) { vh::count("reference failed"); continue; }
        // the step itself may only be wrong by the tolerance; positions carry the rounding of the stored coordinates
        L w = stiffness(b), e = 0, m = 0, drift_r = 0, drift_v = 0;
        L sr = 0, sv = 0, dr = 0, dv = 0;
        for (size_t j = 0; j < b.size(); ++j) {
            sr = std::max({sr, ref::norm(b[j].r), ref::norm(log[i].b[j].r)}), sv = std::max({sv, ref::norm(b[j].v), ref::norm(log[i].b[j].v)});
            dr = std::max(dr, ref::dist(b[j].r, log[i + 1].b[j].r)), dv = std::max(dv, ref::dist(b[j].v, log[i + 1].b[j].v));
        }
        if (in.reg) {
            // the time transformation keeps the energy it started with: what it has lost since then acts as a wrong clock
            L K, U, Ei = ref::energy(log[i].b, &K, &U);
            L off = fabsl((Ei - E0) / U) * w * fabsl(dt);
            drift_r = off * sr * 2, drift_v = off * sv * 2;
        }
        L acc = w * sv;                                                                            // scale of accelerations
        L tt = in.reg ? rtol * (fabsl(log[i + 1].t) + fabsl(dt)) + atol : 0;  // time is integrated too, to its own tolerance
        L fl = 1e-15L * (4 + w * fabsl(dt)) * 20;
        if (in.order == 15) fl *= 100;
        L clk = 4e-15L * (fabsl(log[i + 1].t));
        L tr = 60 * (rtol * sr + atol + tt * sv) + fl * sr + clk * sv, tv = 60 * (rtol * sv + atol + tt * acc) + fl * sv + clk * acc;
        if (in.order == 15) tr = fl * sr + clk * sv, tv = fl * sv + clk * acc;
        e = dr / sr + dv / sv;
        m = std::max(dr / (tr + drift_r), dv / (tv + drift_v));
        L tol = rtol, floor = fl / 20;
        if (getenv("DBG") && (m > 1 || getenv("DBG")[0]==50)) fprintf(stderr, "%s i=%zu dt=%Lg t=%Lg h=%Lg dr=%Lg tr=%Lg dv=%Lg tv=%Lg w=%Lg N=%zu rtol=%g atol=%g\n", in.name, i, dt, log[i].t, log[i].h, dr, tr, dv, tv, w, b.size(), rtol, atol);
        if (m > worst) worst = m;
        sum += m;
        ++tighter;
        vh::eval(vh::hash_str(cat(in.name, (double)log[i].t, (double)e)));
        vh::count(two ? "steps against Kepler" : "steps against the integrated reference");
        if (tol > 100 * floor) vh::count("steps with a tolerance far above rounding");
    }
    std::string ctx = cat(in.name, " ", s.name, " N=", s.b.size(), " rtol=", rtol, " atol=", atol, " steps ", n, warm ? " after another run" : "");
    vh::maxi(cat("margin:error of a step ", in.order), (double)worst);
    vh::expect(worst <= 1, "accepted step meets the tolerance", ctx, " ratio ", worst);
    if (hi > 0) {
        // growth at most 50^(1/order of the result), shrink no more than 0.02^(1/order)/4 (with the rounding of the clock)
        L gmax = in.order == 0 ? powl(50, 1 / 3.0L) : in.order == 15 ? 4 : powl(50, 1.0L / in.order);
        L gmin = in.order == 0 ? powl(0.02L, 1 / 3.0L) / 4 : in.order == 15 ? 0.25L : powl(0.02L, 1.0L / in.order) / 4;
        vh::maxi("margin:growth", (double)(hi / gmax / 2));
        vh::expect(hi <= gmax * 1.000001L, "growth limit of accepted steps", ctx, " grew by ", hi, " of ", gmax);
        vh::expect(lo >= gmin * 0.999999L, "shrink limit of proposed steps", ctx, " shrank by ", lo, " of ", gmin);
        vh::count("runs with step ratios");
    }
    vh::count(cat("runs ", in.name));
    vh::sample(ctx);
}

// a circular orbit calls for steps of one size: no growth spurts, no collapse, a bounded number of them
template <class Solver>
void circular(Info in, vh::Rng& r, long) {
    using S = typename Solver::Scalar;
    Body x, y;
    L m1 = r.logu(0.3, 3), m2 = m1 * r.logu(1e-3, 1), a = r.logu(0.1, 10);
    scen::binary(m1, m2, a, 0, r.u(0, 3), r.u(0, 6), r.u(0, 6), r.u(0, 6), x, y);
    std::vector<Body> b{x, y};
    scen::round_to_double(b);
    double rtol = in.order == 2 ? 1e-6 : in.order == 15 ? 1e-14 : std::pow(10.0, -(double)r.i(4, 13));
    if (in.order == 4) rtol = std::max(rtol, 1e-9);
    L P = 2 * ref::PI * sqrtl(a * a * a / (m1 + m2));
    Solver sim(S(0), scen::particles_of<Solver>(b));
    typename Solver::RunArgs args;
    args.rtol = S(rtol);
    double first = r.chance(0.5) ? 0 : r.logu(1e-4, 0.3);
    if (first > 0) args.step_size = S((double)P * first) * sim.particles().step_scale();
    std::vector<L> t;
    args.add_operation([&](auto& p, auto) { t.push_back((L)p.time()); });
    L orbits = in.order == 2 ? 1 : 6;
    args.add_stop_condition(S((double)(P * orbits)));
    args.add_stop_condition([&](auto&, auto) { return t.size() > 40000; });
    try { sim.run(args); } catch (vh::Aborted const&) { vh::viol("run ended the program", cat(in.name, " circular rtol ", rtol)); return; }
    L per = 0;
    size_t late = 0, i0 = 0;
    while (i0 < t.size() && t[i0] < P * (orbits / 3)) ++i0;
    L mn = INFINITY, mx = 0;
    for (size_t i = i0; i + 2 < t.size(); ++i) { L d = t[i + 1] - t[i]; mn = std::min(mn, d), mx = std::max(mx, d); ++late; }
    if (getenv("DBG") && mx > 10 * mn) for (size_t i = i0; i + 1 < t.size(); ++i) fprintf(stderr, "%s %Lg %Lg of %Lg\n", in.name, t[i] / P, (t[i + 1] - t[i]) / P, orbits);
    per = late / (orbits * 2 / 3);
    vh::maxi(cat("steps per circular orbit ", in.order, " ", in.reg ? "reg" : in.chain ? "chain" : "plain", " tol ", rtol < 1e-9 ? "tight" : "loose"), (double)per);
    vh::count(cat("circular orbits ", in.name));
    vh::eval(vh::hash_str(cat(in.name, rtol, (double)per)));
    // steps per orbit that a method of this order needs, with room to spare
    L need = in.order == 0 ? 25 : in.order == 2 ? 1500 : in.order == 4 ? 800 : in.order == 6 ? 600 : in.order == 8 ? 400 : in.order == 10 ? 80 : 110;
    vh::maxi(cat("margin:cost of a circular orbit ", in.order), (double)(per / need));
    vh::expect(per <= need, "steps do not shrink when the error is well below tolerance", cat(in.name, " rtol ", rtol, " first ", first, ": ", (double)per, " steps per circular orbit"));
    if (late > 5) { vh::maxi(cat("ratio of longest to shortest step ", in.order), (double)(mx / mn)); }
}

// whole runs at a ladder of tolerances
template <class Solver>
void ladder(Info in, vh::Rng& r, long) {
    using S = typename Solver::Scalar;
    int kind = (int)r.pick(std::vector<int>{0, 0, 2});
    auto s = scen::make(r, kind, r.chance(0.2));
    std::vector<double> tols = in.order == 2 ? std::vector<double>{1e-3, 1e-4, 1e-5, 1e-6} : in.order == 4 ? std::vector<double>{1e-3, 1e-5, 1e-7, 1e-9} : std::vector<double>{1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13, 1e-15};
    while (tols[0] > loosest(in)) tols.erase(tols.begin());
    if (in.order == 2) s.T *= 0.3L;
    // sensitivity of the end state, from perturbed references
    auto exact = s.b;
    advance(exact, s.T);
    L amp = 1;
    for (int k = 0; k < 6; ++k) {
        auto q = s.b;
        for (auto& z : q) z.r += scen::iso(r) * (1e-9L * ref::norm(z.r)), z.v += scen::iso(r) * (1e-9L * ref::norm(z.v));
        advance(q, s.T);
        amp = std::max(amp, state_error(q, exact) / 1e-9L);
    }
    L worst_so_far = 0, first_err = 0, last_err = 0;
    size_t last_steps = 0, first_steps = 0;
    for (size_t k = 0; k < tols.size(); ++k) {
        Solver sim(S(0), scen::particles_of<Solver>(s.b));
        typename Solver::RunArgs a;
        a.rtol = S(tols[k]);
        size_t n = 0;
        a.add_operation([&](auto&, auto) { ++n; });
        a.add_stop_condition(S(s.T));
        try { sim.run(a); } catch (vh::Aborted const&) { vh::viol("run ended the program", cat(in.name, " ", s.name, " rtol ", tols[k])); return; }
        auto b = scen::bodies(sim.particles());
        auto e0 = s.b;
        advance(e0, (L)sim.particles().time());
        L err = state_error(b, e0);
        L floor = 1e-15L * amp * (20 + n) * 5;
        std::string ctx = cat(in.name, " ", s.name, " rtol ", tols[k], " error ", err, " steps ", n, " sensitivity ", amp);
        L law = 30 * amp * tols[k] * std::sqrt((L)n + 4) + floor;
        vh::maxi(cat("margin:run error by tolerance ", in.order), (double)(err / law));
        vh::expect(err <= law, "run accuracy within the tolerance times its steps", ctx, " allowed ", law);
        if (k > 0) {
            L m = err / (40 * worst_so_far + floor);
            vh::maxi(cat("margin:tighter is not worse ", in.order), (double)m);
            vh::expect(m <= 1, "a tighter tolerance is not materially worse", ctx, " looser gave ", worst_so_far);
            vh::count("tightened runs");
            vh::expect(n + 5 >= last_steps * 0.5, "a tighter tolerance takes no fewer steps", ctx, " looser took ", last_steps);
        } else first_err = err, first_steps = n;
        worst_so_far = std::max(worst_so_far, err);
        last_err = err, last_steps = n;
        vh::eval(vh::hash_str(cat(in.name, tols[k], (double)err)));
    }
    if (last_err < first_err * 1e-2) vh::count("ladders gaining over two decades");
    vh::count(cat("ladders ", in.name));
    (void)first_steps;
}
// a force that is only defined below a limiting speed: a first step that is too long runs out of its domain although the motion
// itself never does; no such step may be accepted
struct Limited {
    static inline double c2 = 1;
    constexpr static bool vel_dependent = true;
    template <class P>
    static void add_acc_to(P const& p, typename P::VectorArray& acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i] -= p.vel(i) * (typename P::Scalar)(0.003 * sqrt((double)(1 - norm2(p.vel(i)) / c2)));
    }
};
template <class Solver>
void limited(Info in, vh::Rng& r, long) {
    using S = typename Solver::Scalar;
    Body x, y;
    L m1 = r.logu(0.3, 3), m2 = m1 * r.logu(1e-3, 1), e = r.u(0.3, 0.9);
    scen::binary(m1, m2, 1 - e * e, e, r.u(0, 3), r.u(0, 6), r.u(0, 6), ref::PI * r.u(0.8, 1.2), x, y);
    std::vector<Body> b{x, y};
    scen::round_to_double(b);
    L vmax = sqrtl((m1 + m2) * (1 + e) / (1 - e)), P = 2 * ref::PI / sqrtl(m1 + m2);
    Limited::c2 = (double)(vmax * vmax * r.u(1.2, 2));
    L c2 = Limited::c2, T = P * r.u(0.6, 1.2);
    auto drag = [&](std::vector<Body> const& q, std::vector<V>& a) { for (size_t i = 0; i < q.size(); ++i) a[i] += q[i].v * (-0.003L * sqrtl(1 - ref::dot(q[i].v, q[i].v) / c2)); };
    Solver sim(S(0), scen::particles_of<Solver>(b));
    typename Solver::RunArgs a;
    a.rtol = S(in.order <= 4 && in.order > 0 ? 1e-6 : 1e-10);
    double first = (double)P * r.logu(0.05, 30);
    a.step_size = S(first) * sim.particles().step_scale();
    a.add_stop_condition(S((double)T));
    long n = 0, bad = 0;
    a.add_operation([&](auto& p, auto h) { ++n; for (size_t i = 0; i < p.number(); ++i) if (!(norm(p.pos(i)) < 1e6) || !(norm(p.vel(i)) < 1e6) || !(p.time() == p.time()) || !(h == h)) ++bad; });
    a.add_stop_condition([&](auto&, auto) { return n > 20000 || bad > 0; });
    std::string ctx = cat(in.name, " e=", e, " first step ", first, " of period ", P, " end ", T, " steps ");
    try { sim.run(a); } catch (vh::Aborted const&) { vh::viol("run ended the program", ctx); return; }
    vh::expect(bad == 0, "every accepted state is a number", ctx, n);
    if (bad) return;
    auto q = b;
    if (!ref::evolve(q, (L)sim.particles().time(), drag, 1e-16L, 1e-3L)) { vh::count("reference failed"); return; }
    L err = state_error(scen::bodies(sim.particles()), q);
    L allow = a.rtol * sqrtl(n + 10) * 300 / powl(1 - e, 2.5L) + 1e-9L;
    vh::maxi("margin:limited domain", (double)(err / allow));
    vh::expect(err <= allow, "end state after a first step out of the domain", ctx, n, " off by ", err, " allowed ", allow);
    vh::count("runs with a force of limited domain");
    vh::eval(vh::hash_str(cat(in.name, first, (double)err)));
}
template <class Solver>
void all(Info in, long n) {
    if (in.order == 2) n = std::max(n / 4, 2l);
    vh::cases(cat("steps ", in.name), n, [&](vh::Rng& r, long i) { steps<Solver>(in, r, i); });
    vh::cases(cat("circular ", in.name), std::max(n / 3, 2l), [&](vh::Rng& r, long i) { circular<Solver>(in, r, i); });
    if (in.order != 15) vh::cases(cat("ladder ", in.name), std::max(n / 3, 2l), [&](vh::Rng& r, long i) { ladder<Solver>(in, r, i); });
}
using namespace hub::methods;
using FL = force::Interactions<force::NewtonianGrav, Limited>;
#define M(NAME, ORDER, REG, CHAIN) \
    all<NAME<F, PP>>(Info{#NAME, ORDER, REG, CHAIN}, n); \
    vh::cases("limited " #NAME, ORDER == 2 ? n / 8 : n / 2, [&](vh::Rng& r, long) { limited<NAME<FL, PP>>(Info{#NAME, ORDER, REG, CHAIN}, r, 0); });
void vh_main() {
    long n = vh::scale(48, 800);
#if PART == 1
    M(BS, 0, false, false) M(Chain_BS, 0, false, true) M(BS_Plus, 0, false, false) M(Sym4, 4, false, false)
#elif PART == 2
    M(AR_BS, 0, true, false) M(AR_Chain, 0, true, true) M(AR_Chain_Plus, 0, true, true) M(AR_Sym4, 4, true, false)
#elif PART == 3
    M(Sym2, 2, false, false) M(Sym6, 6, false, false) M(Chain_Sym8, 8, false, true) M(Sym8_Plus, 8, false, false)
#elif PART == 4
    M(AR_Sym6, 6, true, false) M(AR_Sym8_Chain, 8, true, true) M(AR_Sym2, 2, true, false) M(AR_Sym8_Plus, 8, true, false)
#elif PART == 5
    M(Sym10, 10, false, false) M(AR_Sym10_Chain, 10, true, true) M(Chain_Sym10, 10, false, true) M(AR_BS_Plus, 0, true, false)
#elif PART == 6
    M(Radau, 15, false, false) M(Chain_Radau, 15, false, true) M(AR_Radau, 15, true, false) M(AR_Radau_Chain, 15, true, true) M(Radau_Plus, 15, false, false)
#elif PART == 7
    M(BS_Ext, 0, false, false) M(AR_Chain_Ext, 0, true, true) M(Sym6_Ext, 6, false, false) M(AR_Sym8_Ext, 8, true, false)
#endif
}
