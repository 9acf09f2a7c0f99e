// C17: fixed-step integrators have their nominal order, are time reversible, show no secular energy drift, and their elementary steps
// advance exactly what they name.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "scen.hpp"
using namespace hub;
using ref::Body;
using ref::L;
using ref::V;
using vh::cat;
using F = force::Interactions<force::NewtonianGrav>;
struct Friction {
    constexpr static bool vel_dependent{true};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i)
            for (size_t j = 0; j < i; ++j) {
                auto d = p.pos(i) - p.pos(j);
                auto w = p.vel(i) - p.vel(j);
                auto r2 = dot(d, d) + 1;
                a[i] -= w * (0.01 * p.mass(j) / r2);
                a[j] += w * (0.01 * p.mass(i) / r2);
            }
    }
};
static void friction(std::vector<Body> const& b, std::vector<V>& a) {
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
            if (i != j) { V d = b[i].r - b[j].r; a[i] += (b[i].v - b[j].v) * (-(L)0.01 * b[j].m / (ref::dot(d, d) + 1)); }
}
using FF = force::Interactions<force::NewtonianGrav, Friction>;
inline L max_dist(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.r)); return m; }
inline L max_speed(std::vector<Body> const& b) { L m = 0; for (auto& q : b) m = std::max(m, ref::norm(q.v)); return m; }
static bool advance(std::vector<Body>& b, L dt, bool rub) {
    if (dt == 0) return true;
    if (b.size() == 2 && !rub) {
        V c = ref::com(b), u = ref::momentum(b) / ref::mass(b), r = b[1].r - b[0].r, v = b[1].v - b[0].v;
        L M = ref::mass(b);
        ref::kepler_advance(M, r, v, dt);
        c = c + u * dt;
        b[0].r = c - r * (b[1].m / M), b[1].r = c + r * (b[0].m / M);
        b[0].v = u - v * (b[1].m / M), b[1].v = u + v * (b[0].m / M);
        return true;
    }
    return ref::evolve(b, dt, rub ? ref::Acc(friction) : ref::Acc(nullptr), 1e-17L, 1e-2L * dt);
}
// smooth systems: an ellipse, a compact triple, a planetary system; returned with a typical period
static std::vector<Body> smooth(vh::Rng& r, int kind, L& P, std::string& name) {
    std::vector<Body> b;
    const double pi = (double)ref::PI;
    auto ang = [&] { return r.u(0, 2 * pi); };
    if (kind == 0) {
        L e = r.u(0, 0.5), a = r.logu(0.2, 5), m1 = r.logu(0.5, 2), m2 = m1 * r.logu(1e-4, 1);
        Body x, y;
        scen::binary(m1, m2, a * (1 - e * e), e, ang() / 2, ang(), ang(), ang(), x, y);
        b = {x, y};
        P = 2 * ref::PI * sqrtl(a * a * a / (m1 + m2));
        name = "ellipse";
    } else if (kind == 1) {
        L m1 = r.u(0.5, 1.5), m2 = r.u(0.3, 1), m3 = r.u(0.3, 1), e1 = r.u(0, 0.3), e2 = r.u(0, 0.2), a2 = r.u(4, 6);
        Body x, y, z, o;
        scen::binary(m1, m2, 1 - e1 * e1, e1, ang() / 2, ang(), ang(), ang(), x, y);
        scen::binary(m1 + m2, m3, a2 * (1 - e2 * e2), e2, ang() / 2, ang(), ang(), ang(), o, z);
        for (Body* q : {&x, &y}) q->r += o.r, q->v += o.v;
        b = {x, z, y};
        P = 2 * ref::PI / sqrtl(m1 + m2);
        name = "triple";
    } else {
        b.push_back({1, V(), V()});
        L a = 1;
        for (int i = 1; i < 4; ++i) {
            L m = r.logu(1e-5, 1e-2), e = r.u(0, 0.1);
            V pr, pv;
            ref::kepler_state(1 + m, a * (1 - e * e), e, r.u(0, 0.1), ang(), ang(), ang(), pr, pv);
            b.push_back({m, pr, pv});
            a *= r.u(1.8, 2.5);
        }
        P = 2 * ref::PI;
        name = "planets";
    }
    scen::to_com(b);
    if (r.chance(0.3)) {
        V d = scen::iso(r) * max_dist(b), u = scen::iso(r) * (max_speed(b) * (L)0.5);
        for (auto& q : b) q.r += d, q.v += u;
    }
    scen::round_to_double(b);
    return b;
}
struct Obs { L t; std::vector<Body> b; };
struct Info { const char* name; int order; bool reg, chain, rub = false; };
// n steps of size h with a solver at constant steps: states after n/3, 2n/3 and n steps
template <class Solver>
bool run_steps(std::vector<Body> const& b, L h, long n, bool reg, std::vector<Obs>& o) {
    using S = typename Solver::Scalar;
    Solver sim(S(0), scen::particles_of<Solver>(b));
    typename Solver::RunArgs a;
    a.step_size = S(h * (reg ? (L)sim.particles().step_scale() : 1));
    long k = 0;
    a.add_operation([&](auto& p, auto) {
        if (k && (k == n / 3 || k == 2 * n / 3 || k == n)) o.push_back({(L)p.time(), scen::bodies(p)});
        ++k;
    });
    a.add_stop_condition([&](auto&, auto) { return k >= n; });
    a.add_stop_condition(S(1e15));
    try { sim.run(a); } catch (vh::Aborted const&) { return false; }
    return o.size() == 3;
}
template <class Solver>
void order(Info in, int kind, vh::Rng& r) {
    using S = typename Solver::Scalar;
    constexpr bool wide = sizeof(S) > 8 && std::is_same_v<S, long double>;
    L P;
    std::string name;
    auto b = smooth(r, kind, P, name);
    L T = P * (L)r.u(0.6, 1.4), floor_err = wide ? 1e-14L : 2e-11L;
    std::vector<L> err;
    std::vector<long> ns;
    long n = in.order >= 8 ? 9 : in.order >= 4 ? 24 : 48, nmax = in.order == 2 ? 6144 : in.order == 4 ? 6144 : 3072;
    for (; n <= nmax; n *= 2) {
        std::vector<Obs> o;
        if (!run_steps<Solver>(b, T / n, n, in.reg, o)) { vh::viol("fixed steps end the program", cat(in.name, " ", name)); return; }
        L e = 0, t = 0;
        auto m = b;
        for (auto& q : o) {
            if (!(fabsl(q.t) < 100 * T) || !advance(m, q.t - t, in.rub)) { e = NAN; break; }
            t = q.t;
            for (size_t i = 0; i < b.size(); ++i) {
                L d = ref::dist(q.b[i].r, m[i].r) / max_dist(m) + ref::dist(q.b[i].v, m[i].v) / max_speed(m);
                if (!(d <= e)) e = d;
            }
        }
        err.push_back(e), ns.push_back(n);
        vh::eval(vh::mix(n) ^ vh::hash_str(in.name) ^ vh::mix(vh::bits_of((double)b[0].r.x)));
        if (e < floor_err) break;
    }
    // local orders between successive levels in the asymptotic range
    std::string list;
    std::vector<L> p;
    L next = -1;
    for (size_t i = 0; i + 1 < err.size(); ++i) {
        bool usable = err[i] < 0.03L && err[i + 1] > 10 * floor_err * std::max((L)1, ns[i + 1] / (L)200);
        L q = log2l(err[i] / err[i + 1]);
        list += cat(" n=", ns[i + 1], ":", (double)err[i + 1], usable ? cat("(", (double)q, ")") : "");
        if (usable) p.push_back(q), next = -1;
        else if (!p.empty() && next < 0) next = q;  // into rounding: at least this order
    }
    std::string f = cat("order ", in.order, in.reg ? " regularised" : "", in.chain ? " chain" : "", in.rub ? " with friction" : "");
    // a method of order 10 or 15 passes from useless to rounding within one or two levels: its reaching the floor that fast is the evidence
    long reached = -1;
    for (size_t i = err.size(); i-- > 0;) if (err[i] < 5 * floor_err) reached = ns[i];
    if (in.order == 15) {
        L q = 0;
        for (size_t i = 0; i + 1 < err.size(); ++i) if (err[i] < 0.03L && err[i] > floor_err) q = std::max(q, log2l(err[i] / std::max(err[i + 1], floor_err)));
        vh::count(cat("measured ", f));
        vh::sample(cat(in.name, " ", name, list));
        if (!(reached > 0 && reached <= 300)) vh::viol(cat("nominal ", f), cat(in.name, " ", name, " rounding not reached by 300 steps:", list));
        return;
    }
    if (p.empty()) { vh::count(cat("not measured ", f)); return; }
    std::vector<L> last(p.end() - std::min<size_t>(p.size(), in.order >= 8 ? 1 : 3), p.end());
    const L slack = in.order == 10 ? 1.6L : in.order == 8 ? 1.3L : 1;
    std::sort(last.begin(), last.end());
    L got = last[last.size() / 2];
    if (in.order >= 8 && p.size() > 1) got = std::max(got, (p[p.size() - 1] + p[p.size() - 2]) / 2);  // errors of single levels may cancel
    got = std::max(got, next);
    vh::count(cat("measured ", f));
    vh::maxi(cat("margin:", f), (double)((in.order - got) / slack));
    vh::sample(cat(in.name, " ", name, list));
    if (!(got >= in.order - slack)) vh::viol(cat("nominal ", f), cat(in.name, " ", name, " measured ", (double)got, ":", list));
}
// direct use of systems and integrators: elementary steps, reversibility, secular drift
template <class T>
using PP = particles::PointParticles<T>;
template <class Sys>
Sys make_system(std::vector<Body> const& b, L t0 = 0) {
    using S = typename Sys::Scalar;
    using Vec = typename Sys::Vector;
    std::vector<typename Sys::Particle> ps;
    for (auto& q : b) ps.push_back(typename Sys::Particle(S(q.m), Vec(S(q.r.x), S(q.r.y), S(q.r.z)), Vec(S(q.v.x), S(q.v.y), S(q.v.z))));
    return Sys(S(t0), ps);
}
static std::vector<V> accel(std::vector<Body> const& b, bool rub) {
    std::vector<V> a(b.size());
    ref::gravity(b, a);
    if (rub) friction(b, a);
    return a;
}
template <class Sys>
void elementary(const char* name, bool reg, bool rub, vh::Rng& r) {
    using S = typename Sys::Scalar;
    const L eps = sizeof(S) > 8 && std::is_same_v<S, long double> ? 0x1p-63L : 0x1p-52L;
    L P;
    std::string kind;
    auto b = smooth(r, (int)r.i(0, 2), P, kind);
    L t0 = r.chance(0.5) ? 0 : (L)r.u(-3, 3);
    t0 = (double)t0;
    auto s = make_system<Sys>(b, t0);
    L sep = INFINITY;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) sep = std::min(sep, ref::dist(b[i].r, b[j].r));
    L amp = max_dist(b) / sep;
    L h = (double)(P * (L)r.logu(1e-4, 0.3) * (r.chance(0.4) ? -1 : 1));
    L hs = reg ? (double)(h * (L)s.step_scale()) : h, hp = reg ? hs / (L)s.step_scale() : h;
    auto a = accel(b, rub);
    L amax = 0;
    for (auto& q : a) amax = std::max(amax, ref::norm(q));
    const L tol_r = 40 * eps * (max_dist(b) + max_speed(b) * fabsl(hp)) * b.size(), tol_v = 40 * eps * (max_speed(b) + amax * fabsl(hp) * amp) * b.size();
    auto judge = [&](const char* what, L got, L tol) {
        vh::maxi(cat("margin:", what), (double)(got / tol));
        if (!(got <= tol)) vh::viol(what, cat(name, " ", kind, " h=", (double)h, " off by ", (double)got, " allowed ", (double)tol));
    };
    {  // drift: positions and time, nothing else
        auto d = s;
        d.drift(S(hs));
        auto q = scen::bodies(d);
        L er = 0, ev = 0;
        for (size_t i = 0; i < b.size(); ++i) er = std::max(er, ref::dist(q[i].r, b[i].r + b[i].v * hp)), ev = std::max(ev, ref::dist(q[i].v, b[i].v));
        judge("drift moves the positions with the velocities", er, tol_r * (reg ? 20 * amp : 1));
        judge("drift leaves the velocities", ev, tol_v);
        judge("drift advances the time", fabsl((L)d.time() - t0 - hp), 40 * eps * (fabsl(t0) + fabsl(hp) * (reg ? 20 * amp : 1)));
    }
    {  // kick: velocities only
        auto d = s;
        d.kick(S(hs));
        auto q = scen::bodies(d);
        L er = 0, ev = 0;
        for (size_t i = 0; i < b.size(); ++i) er = std::max(er, ref::dist(q[i].r, b[i].r)), ev = std::max(ev, ref::dist(q[i].v, b[i].v + a[i] * hp));
        judge("kick leaves the positions", er, tol_r);
        // velocity-dependent forces: half a kick of the auxiliary velocities, the real kick with these, half a kick again: exact to first order
        L second = 0;
        if (rub) for (auto& q2 : b) second = std::max(second, (L)0.01 * ref::mass(b) * 2 * amax * hp * hp + 0 * q2.m);
        judge(rub ? "kick with friction" : "kick changes the velocities by the acceleration", ev, tol_v * (reg ? 20 * amp : 1) + 2 * second);
        judge("kick leaves the time", fabsl((L)d.time() - t0), 0x1p-1000L);
    }
    if (!rub) {  // the synchronised steps are their composition; in physical time they are the textbook leapfrogs
        auto d = s, c = s;
        integrator::LeapFrogDKD<typename Sys::TypeSet> dkd;
        integrator::LeapFrogKDK<typename Sys::TypeSet> kdk;
        dkd.integrate(d, S(hs));
        auto q = scen::bodies(d);
        auto m = b;
        L er = 0, ev = 0;
        if (!reg) {
            for (auto& x : m) x.r = x.r + x.v * (hp / 2);
            L near = INFINITY;
            for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) near = std::min(near, ref::dist(m[i].r, m[j].r));
            auto k = accel(m, false);
            L kmax = 0;
            for (size_t i = 0; i < m.size(); ++i) m[i].v = m[i].v + k[i] * hp, kmax = std::max(kmax, ref::norm(k[i])), m[i].r = m[i].r + m[i].v * (hp / 2);
            for (size_t i = 0; i < m.size(); ++i) er = std::max(er, ref::dist(q[i].r, m[i].r)), ev = std::max(ev, ref::dist(q[i].v, m[i].v));
            L lim = 40 * eps * b.size() * (max_speed(b) + kmax * fabsl(hp) * (max_dist(b) + max_speed(b) * fabsl(hp)) / near);
            judge("drift-kick-drift velocities", ev, lim);
            judge("drift-kick-drift positions", er, tol_r + lim * fabsl(hp));
            judge("drift-kick-drift time", fabsl((L)d.time() - t0 - hp), 40 * eps * (fabsl(t0) + fabsl(hp)));
            kdk.integrate(c, S(hs));
            q = scen::bodies(c), m = b, er = ev = 0;
            for (size_t i = 0; i < m.size(); ++i) m[i].v = m[i].v + a[i] * (hp / 2), m[i].r = m[i].r + m[i].v * hp;
            near = INFINITY;
            for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) near = std::min(near, ref::dist(m[i].r, m[j].r));
            k = accel(m, false), kmax = 0;
            for (size_t i = 0; i < m.size(); ++i) m[i].v = m[i].v + k[i] * (hp / 2), kmax = std::max(kmax, ref::norm(k[i]));
            for (size_t i = 0; i < m.size(); ++i) er = std::max(er, ref::dist(q[i].r, m[i].r)), ev = std::max(ev, ref::dist(q[i].v, m[i].v));
            lim = 40 * eps * b.size() * (max_speed(b) + amax * fabsl(hp) * amp + kmax * fabsl(hp) * (max_dist(b) + max_speed(b) * fabsl(hp) + amax * hp * hp) / near * (1 + amp * fabsl(hp) * fabsl(hp) * amax / max_dist(b)));
            judge("kick-drift-kick velocities", ev, lim);
            judge("kick-drift-kick positions", er, tol_r + tol_v * fabsl(hp));
            judge("kick-drift-kick time", fabsl((L)c.time() - t0 - hp), 40 * eps * (fabsl(t0) + fabsl(hp)));
        } else {
            c.drift(S(0.5) * S(hs)), c.kick(S(hs)), c.drift(S(0.5) * S(hs));
            auto w = scen::bodies(c);
            for (size_t i = 0; i < m.size(); ++i) er = std::max(er, ref::dist(q[i].r, w[i].r)), ev = std::max(ev, ref::dist(q[i].v, w[i].v));
            judge("regularised drift-kick-drift is its composition", er / max_dist(b) + ev / max_speed(b), 100 * eps * amp);
        }
    }
    vh::count(cat("elementary steps ", name));
    vh::eval(vh::hash_str(name) ^ vh::mix(vh::bits_of((double)b[0].r.x)) ^ vh::mix(vh::bits_of((double)h)));
}
template <class Sys, class Int>
void reversible(const char* name, bool reg, vh::Rng& r) {
    using S = typename Sys::Scalar;
    const L eps = std::is_same_v<S, long double> ? 0x1p-63L : 0x1p-52L;
    L P;
    std::string kind;
    auto b = smooth(r, (int)r.i(0, 2), P, kind);
    auto s = make_system<Sys>(b);
    Int in;
    long n = r.i(20, 200);
    L h = P / (L)r.u(20, 80);
    S hs = S(reg ? h * (L)s.step_scale() : h);
    for (long i = 0; i < n; ++i) in.integrate(s, hs);
    auto far = scen::bodies(s);
    L moved = 0, er = 0, ev = 0, far_t = (L)s.time(), rmax = std::max(max_dist(b), max_dist(far));
    if (!(rmax < 10 * max_dist(b))) { vh::count("reversal left out: disrupted"); return; }
    for (size_t i = 0; i < b.size(); ++i) moved = std::max(moved, ref::dist(far[i].r, b[i].r));
    for (long i = 0; i < n; ++i) in.integrate(s, -hs);
    auto q = scen::bodies(s);
    for (size_t i = 0; i < b.size(); ++i) er = std::max(er, ref::dist(q[i].r, b[i].r)), ev = std::max(ev, ref::dist(q[i].v, b[i].v));
    L sep = INFINITY;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) sep = std::min({sep, ref::dist(b[i].r, b[j].r), ref::dist(far[i].r, far[j].r)});
    L amp = std::max(max_dist(b), max_dist(far)) / sep;
    L lim = 2000 * eps * (n + 10) * amp, got = er / rmax + ev / max_speed(b) + fabsl((L)s.time()) / fabsl(far_t);
    vh::maxi(cat("margin:retraced ", name), (double)(got / lim));
    vh::count("retraced trajectories");
    vh::sample(cat("reversal ", name, " ", kind, ": ", n, " steps moved ", (double)(moved / rmax), ", came back to ", (double)got));
    if (!(got <= lim)) vh::viol(cat("retraces its trajectory, ", name), cat(kind, " ", n, " steps, moved ", (double)(moved / rmax), " came back to ", (double)got, " allowed ", (double)lim));
    vh::eval(vh::hash_str(name) ^ vh::mix(vh::bits_of((double)b[0].r.x)) ^ vh::mix(n));
}
template <class Sys, class Int>
void secular(const char* name, int order, bool reg, vh::Rng& r) {
    using S = typename Sys::Scalar;
    L P;
    std::string kind;
    auto b = smooth(r, r.chance(0.7) ? 0 : 2, P, kind);
    auto s = make_system<Sys>(b);
    Int in;
    const long per = order == 2 ? 60 : 40, orbits = 120;
    L h = P / ((L)per + (L)r.u(0, 1));
    S hs = S(reg ? h * (L)s.step_scale() : h);
    L K, U, E0 = ref::energy(b, &K, &U), scale = K - U;
    std::vector<L> mean(4, 0), most(4, 0);
    for (long i = 0; i < per * orbits; ++i) {
        in.integrate(s, hs);
        L e = (ref::energy(scen::bodies(s)) - E0) / scale;
        size_t q = (size_t)(4 * i / (per * orbits));
        mean[q] += e / (per * orbits / 4), most[q] = std::max(most[q], fabsl(e));
    }
    L amp = *std::max_element(most.begin(), most.end()), trend = fabsl(mean[3] - mean[0]), floor_e = 100 * 0x1p-52L * sqrtl((L)per * orbits) * order;
    if (most[0] > 0.05L) { vh::count("energy trend left out: unresolved"); return; }
    L lim = 0.5L * most[0] + floor_e;
    vh::maxi(cat("margin:secular ", name), (double)(trend / lim));
    vh::count("energy trends");
    vh::sample(cat("energy ", name, " ", kind, ": oscillation ", (double)amp, ", drift between first and last quarter of ", per * orbits, " steps ", (double)trend));
    if (!(trend <= lim && most[3] <= 4 * most[0] + floor_e)) vh::viol(cat("no secular energy drift, ", name), cat(kind, " quarters mean ", (double)mean[0], " ", (double)mean[1], " ", (double)mean[2], " ", (double)mean[3], " max ", (double)most[0], " ", (double)most[3]));
    vh::eval(vh::hash_str(name) ^ vh::mix(vh::bits_of((double)b[0].r.x)));
}
template <class Solver>
void go(Info in, long q) {
    for (int kind = 0; kind < (in.rub ? 1 : 3); ++kind)
        vh::cases(cat("order ", in.name, ", ", kind), vh::scale(kind == 0 ? q * 3 : q, q * 30), [&](vh::Rng& r, long) { order<Solver>(in, kind, r); });
}
#define GO(M, ...) go<methods::M<F>>(Info{#M, __VA_ARGS__}, 6)
#define GOF(M, ...) go<methods::M<FF>>(Info{#M " friction", __VA_ARGS__, true}, 6)
template <class Sys>
void steps_of(const char* name, bool reg, bool rub) {
    vh::cases(cat("elementary ", name), vh::scale(600, 20000), [&](vh::Rng& r, long) { elementary<Sys>(name, reg, rub, r); });
}
template <class Sys>
void long_runs(const char* name, bool reg) {
    using T = typename Sys::TypeSet;
#define INT(I, o) \
    vh::cases(cat("reversal " #I " ", name), vh::scale(120, 2500), [&](vh::Rng& r, long) { reversible<Sys, integrator::I<T>>(cat(#I " ", name).c_str(), reg, r); }); \
    vh::cases(cat("secular " #I " ", name), vh::scale(8, 150), [&](vh::Rng& r, long) { secular<Sys, integrator::I<T>>(cat(#I " ", name).c_str(), o, reg, r); });
    INT(Symplectic2nd, 2)
    INT(LeapFrogKDK, 2)
    INT(Symplectic4th, 4)
    INT(Symplectic6th, 6)
    INT(Symplectic8th, 8)
    INT(Symplectic10th, 10)
}
using Tn = Types<double, Vec3>;
using Tk = Types<double_k, Vec3>;
using Tl = Types<long double, Vec3>;
template <class T, class FF_, system::ReguType R>
using Reg = system::RegularizedSystem<PP<T>, FF_, R>;
template <class T, class FF_, system::ReguType R>
using ARch = system::ARchainSystem<PP<T>, FF_, R>;
template <class Sys, class Int>
using Fixed = Simulator<Sys, ode::ConstOdeIterator<Int>>;
using RT = system::ReguType;
void vh_main() {
#if PART == 1
    GO(Const_Sym2, 2, false, false);
    GO(Const_Sym4, 4, false, false);
    GO(Const_Sym6, 6, false, false);
    GO(Const_Sym8, 8, false, false);
    GO(Const_Sym10, 10, false, false);
    GO(Const_AR_Sym2, 2, true, false);
    GO(Const_AR_Sym4, 4, true, false);
    GO(Const_AR_Sym6, 6, true, false);
    GO(Const_AR_Sym8, 8, true, false);
    GO(Const_AR_Sym10, 10, true, false);
#elif PART == 2
    GO(Const_Chain_Sym2, 2, false, true);
    GO(Const_Chain_Sym4, 4, false, true);
    GO(Const_Chain_Sym6, 6, false, true);
    GO(Const_Chain_Sym8, 8, false, true);
    GO(Const_Chain_Sym10, 10, false, true);
    GO(Const_AR_Sym2_Chain, 2, true, true);
    GO(Const_AR_Sym4_Chain, 4, true, true);
    GO(Const_AR_Sym6_Chain, 6, true, true);
    GO(Const_AR_Sym8_Chain, 8, true, true);
    GO(Const_AR_Sym10_Chain, 10, true, true);
#elif PART == 3
    GO(Const_Sym2_Ext, 2, false, false);
    GO(Const_Sym4_Ext, 4, false, false);
    GO(Const_Sym6_Ext, 6, false, false);
    GO(Const_Sym8_Ext, 8, false, false);
    GO(Const_Sym10_Ext, 10, false, false);
    GO(Const_AR_Sym4_Ext, 4, true, false);
    GO(Const_AR_Sym8_Ext, 8, true, false);
    GO(Const_AR_Sym10_Ext, 10, true, false);
    GO(Const_Chain_Sym6_Ext, 6, false, true);
    GO(Const_Chain_Sym10_Ext, 10, false, true);
    GO(Const_AR_Sym6_Chain_Ext, 6, true, true);
    GO(Const_AR_Sym10_Chain_Ext, 10, true, true);
#elif PART == 4
    GO(Const_Sym2_Plus, 2, false, false);
    GO(Const_Sym4_Plus, 4, false, false);
    GO(Const_Sym6_Plus, 6, false, false);
    GO(Const_Sym8_Plus, 8, false, false);
    GO(Const_Sym10_Plus, 10, false, false);
    GO(Const_AR_Sym6_Plus, 6, true, false);
    GO(Const_AR_Sym10_Plus, 10, true, false);
    GO(Const_Chain_Sym4_Plus, 4, false, true);
    GO(Const_Chain_Sym8_Plus, 8, false, true);
    GO(Const_AR_Sym4_Chain_Plus, 4, true, true);
    GO(Const_AR_Sym8_Chain_Plus, 8, true, true);
    go<Fixed<Reg<Tl, F, RT::TTL>, integrator::Symplectic6th<Tl>>>(Info{"TTL Sym6", 6, true, false}, 6);
    go<Fixed<ARch<Tl, F, RT::TTL>, integrator::Symplectic8th<Tl>>>(Info{"TTL chain Sym8", 8, true, true}, 6);
    go<Fixed<Reg<Tl, F, RT::None>, integrator::Symplectic4th<Tl>>>(Info{"unregularised Sym4", 4, true, false}, 6);
    go<Fixed<ARch<Tl, F, RT::None>, integrator::Symplectic6th<Tl>>>(Info{"unregularised chain Sym6", 6, true, true}, 6);
    go<Fixed<Reg<Tl, F, RT::TTL>, integrator::LeapFrogKDK<Tl>>>(Info{"TTL KDK", 2, true, false}, 6);
    go<Fixed<system::SimpleSystem<PP<Tl>, F>, integrator::LeapFrogKDK<Tl>>>(Info{"plain KDK", 2, false, false}, 6);
#elif PART == 5
    GO(Const_Radau, 15, false, false);
    GO(Const_AR_Radau, 15, true, false);
    GO(Const_Chain_Radau, 15, false, true);
    GO(Const_AR_Radau_Chain, 15, true, true);
    GO(Const_Radau_Plus, 15, false, false);
    GO(Const_AR_Radau_Plus, 15, true, false);
    GO(Const_Chain_Radau_Ext, 15, false, true);
    GO(Const_AR_Radau_Chain_Ext, 15, true, true);
    GOF(Const_Radau, 15, false, false);
    GOF(Const_AR_Radau, 15, true, false);
    GOF(Const_Chain_Radau, 15, false, true);
    GOF(Const_AR_Radau_Chain, 15, true, true);
    GOF(Const_Sym2, 2, false, false);
    GOF(Const_Sym4_Ext, 4, false, false);
    GOF(Const_AR_Sym6_Ext, 6, true, false);
    GOF(Const_Chain_Sym8_Ext, 8, false, true);
    GOF(Const_AR_Sym4_Chain_Ext, 4, true, true);
    GOF(Const_AR_Sym2, 2, true, false);
#elif PART == 6
    steps_of<system::SimpleSystem<PP<Tn>, F>>("plain double", false, false);
    steps_of<system::SimpleSystem<PP<Tk>, F>>("plain double_k", false, false);
    steps_of<system::ChainSystem<PP<Tn>, F>>("chain double", false, false);
    steps_of<system::ChainSystem<PP<Tl>, F>>("chain long double", false, false);
    steps_of<Reg<Tn, F, RT::LogH>>("LogH double", true, false);
    steps_of<Reg<Tl, F, RT::TTL>>("TTL long double", true, false);
    steps_of<Reg<Tn, F, RT::None>>("unregularised double", true, false);
    steps_of<ARch<Tn, F, RT::LogH>>("chain LogH double", true, false);
    steps_of<ARch<Tk, F, RT::TTL>>("chain TTL double_k", true, false);
    steps_of<ARch<Tl, F, RT::None>>("chain unregularised long double", true, false);
    steps_of<system::SimpleSystem<PP<Tn>, FF>>("plain friction", false, true);
    steps_of<system::ChainSystem<PP<Tn>, FF>>("chain friction", false, true);
    steps_of<Reg<Tn, FF, RT::LogH>>("LogH friction", true, true);
    steps_of<ARch<Tn, FF, RT::TTL>>("chain TTL friction", true, true);
#elif PART == 7
    long_runs<system::SimpleSystem<PP<Tn>, F>>("plain double", false);
    long_runs<system::ChainSystem<PP<Tk>, F>>("chain double_k", false);
    long_runs<system::SimpleSystem<PP<Tl>, F>>("plain long double", false);
    long_runs<Reg<Tn, F, RT::LogH>>("LogH double", true);
#elif PART == 8
    long_runs<Reg<Tl, F, RT::TTL>>("TTL long double", true);
    long_runs<ARch<Tn, F, RT::LogH>>("chain LogH double", true);
    long_runs<ARch<Tk, F, RT::TTL>>("chain TTL double_k", true);
#endif
}
