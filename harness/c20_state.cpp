// C20: the state array is a faithful snapshot, increments and derivatives describe exactly its variables.
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using ref::V;
using system::ReguType;

struct Spring {
    static constexpr bool vel_dependent = false;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] += -0.3 * p.pos(i); }
};
struct Drag {
    static constexpr bool vel_dependent = true;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] += -0.2 * p.vel(i); }
};
template <class P, class I> using Simple = system::SimpleSystem<P, I>;
template <class P, class I> using Chain_ = system::ChainSystem<P, I>;
template <class P, class I> using Regu = system::RegularizedSystem<P, I>;
template <class P, class I> using ReguTTL = system::RegularizedSystem<P, I, ReguType::TTL>;
template <class P, class I> using ReguNone = system::RegularizedSystem<P, I, ReguType::None>;
template <class P, class I> using ARC = system::ARchainSystem<P, I>;
template <class P, class I> using ARCTTL = system::ARchainSystem<P, I, ReguType::TTL>;

template <class S, class = void> struct has_chain : std::false_type {};
template <class S> struct has_chain<S, std::void_t<decltype(std::declval<S&>().chain_pos())>> : std::true_type {};
template <class S, class = void> struct has_regu : std::false_type {};
template <class S> struct has_regu<S, std::void_t<decltype(std::declval<S&>().bindE())>> : std::true_type {};

template <class A> static std::vector<L> vals(A const& a) { std::vector<L> o; for (auto& q : a) o.push_back((L)q); return o; }
template <class Sys> static std::vector<L> exported(Sys& s) {
    typename Sys::StateScalarArray y;
    s.write_to_scalar_array(y);
    return vals(y);
}
static L worst(std::vector<L> const& a, std::vector<L> const& b, size_t from = 0, size_t to = (size_t)-1) {
    if (a.size() != b.size()) return INFINITY;
    L m = 0;
    for (size_t i = from; i < std::min(to, a.size()); ++i) { L d = fabsl(a[i] - b[i]); if (!(d <= m)) m = d; }
    return m;
}
template <class Sys>
static void step(Sys& s, double h) {
    using S = typename Sys::Scalar;
    s.drift(S(h / 2));
    s.kick(S(h));
    s.drift(S(h / 2));
}
// everything an observer can see
template <class Sys>
static std::vector<L> observe(Sys const& s) {
    std::vector<L> o{(L)s.time()};
    for (size_t i = 0; i < s.number(); ++i)
        for (auto const& q : {s.pos(i), s.vel(i)}) { o.push_back((L)q.x); o.push_back((L)q.y); o.push_back((L)q.z); }
    return o;
}
template <class Sys>
static std::vector<L> identity(Sys const& s) {
    std::vector<L> o;
    for (size_t i = 0; i < s.number(); ++i) { o.push_back((L)s.mass(i)); o.push_back((L)s.idn(i)); }
    return o;
}
template <template <class, class> class SysT, class Ty, class I>
static void one(vh::Rng& rng, std::string form, bool ar_indep) {
    using Sys = SysT<particles::PointParticles<Ty>, I>;
    using Part = typename Sys::Particle;
    using S = typename Ty::Scalar;
    using Vec = typename Ty::Vector;
    constexpr bool chain = has_chain<Sys>::value, regu = has_regu<Sys>::value, dep = I::ext_vel_dep;
    const L u = std::is_same_v<S, long double> ? 0x1p-64L : 0x1p-53L;
    int n = (int)rng.i(chain ? 2 : 2, 7);
    std::vector<Part> ps;
    for (int i = 0; i < n; ++i) ps.push_back(Part(S(rng.logu(0.05, 1)), Vec(S(2 * rng.normal()), S(2 * rng.normal()), S(2 * rng.normal())), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal()))));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((double)norm(ps[i].pos - ps[j].pos) < 0.3) return;
    Sys s(S(rng.normal()), ps);
    Sys twin(S(77), ps);  // same particles, different moment
    auto other = ps;  // the same particles in another state: wider apart (in the same order along a chain), moved, moving otherwise
    for (auto& q : other) q.pos = q.pos * S(1.3) + Vec(S(0.5), S(-2), S(1)), q.vel = q.vel * S(0.6) + Vec(S(0.1 * rng.normal()), S(0.1 * rng.normal()), S(0.1 * rng.normal()));
    Sys stranger(S(-5), other);
    vh::eval(rng.next());
    double h = rng.u(0.002, 0.01) * (double)s.step_scale();
    auto fail = [&](bool ok, const char* what, auto... more) { return vh::expect(ok, what, form, " N=", n, " ", more...); };
    int warm = (int)rng.i(0, 4);
    for (int k = 0; k < warm; ++k) { s.pre_iter_process(); step(s, h); s.post_iter_process(); }
    s.pre_iter_process();
    bool mid = dep && rng.chance(0.5);
    if (mid) step(s, h);  // auxiliary velocities now differ from the velocities
    // ---- export
    size_t nv = s.variable_number(), want = 1 + 6 * n + (dep ? 3 * n : 0) + (regu ? 2 : 0);
    typename Sys::StateScalarArray y;
    if (rng.chance(0.5)) for (int k = 0; k < 5; ++k) y.emplace_back(S(3));
    auto before = observe(s);
    s.write_to_scalar_array(y);
    fail(nv == want && y.size() == want, "state array size", "variable_number ", nv, " exported ", y.size(), " expected ", want);
    if (y.size() != want) return;
    auto yv = vals(y);
    fail(worst(observe(s), before) == 0, "export changes nothing");
    fail(worst(exported(s), yv) == 0, "export repeatable");
    {  // layout
        bool ok = yv[s.time_offset()] == (L)s.time();
        for (int i = 0; i < n; ++i) {
            auto p = [&] { if constexpr (chain) return s.chain_pos(i); else return s.pos(i); }();
            auto v = [&] { if constexpr (chain) return s.chain_vel(i); else return s.vel(i); }();
            size_t a = s.pos_offset() + 3 * i, b = s.vel_offset() + 3 * i;
            ok = ok && yv[a] == (L)p.x && yv[a + 1] == (L)p.y && yv[a + 2] == (L)p.z && yv[b] == (L)v.x && yv[b + 1] == (L)v.y && yv[b + 2] == (L)v.z;
            if (dep && !mid) { size_t c = s.auxi_vel_offset() + 3 * i; ok = ok && yv[c] == (L)v.x && yv[c + 1] == (L)v.y && yv[c + 2] == (L)v.z; }
        }
        if constexpr (regu) ok = ok && yv[s.omega_offset()] == (L)s.omega() && yv[s.bindE_offset()] == (L)s.bindE() && s.bindE_offset() == want - 1 && s.omega_offset() == want - 2;
        fail(ok, "state array layout");
    }
    // ---- derivative: does not disturb, right variables
    typename Sys::StateScalarArray dy;
    s.evaluate_general_derivative(dy);
    auto dv = vals(dy);
    fail(dv.size() == want, "derivative size", dv.size());
    fail(worst(exported(s), yv) == 0, "derivative changes nothing");
    if (dv.size() == want && !mid) {
        // reference accelerations at the exported state
        std::vector<ref::Body> b;
        for (int i = 0; i < n; ++i) b.push_back({(L)s.mass(i), V((L)s.pos(i).x, (L)s.pos(i).y, (L)s.pos(i).z), V((L)s.vel(i).x, (L)s.vel(i).y, (L)s.vel(i).z)});
        std::vector<V> a(n), ext(n);
        ref::gravity(b, a);
        auto newt = a;
        for (int i = 0; i < n; ++i) {
            if (ar_indep) ext[i] += b[i].r * -0.3L;
            if (dep) ext[i] += b[i].v * -0.2L;
            a[i] += ext[i];
        }
        L T, U;
        ref::energy(b, &T, &U);
        L preg = 1, vreg = 1, dom = 0, dB = 0;
        if constexpr (regu) {
            constexpr auto rt = Sys::regu_type;
            if (rt == ReguType::LogH) { preg = 1 / (T + (L)s.bindE()); vreg = 1 / -U; for (int i = 0; i < n; ++i) dB -= b[i].m * ref::dot(b[i].v, ext[i]); }
            if (rt == ReguType::TTL) { preg = 1 / (L)s.omega(); vreg = 1 / -U; for (int i = 0; i < n; ++i) dom += b[i].m * ref::dot(b[i].v, newt[i]); }
        }
        std::vector<L> w{preg};
        auto push = [&](std::vector<V> const& x, L f) {
            for (int i = 0; i < n; ++i) {
                V q = x[i];
                if constexpr (chain) q = i + 1 < n ? x[s.index(i + 1)] - x[s.index(i)] : x[s.index(0)];
                w.push_back(q.x * f); w.push_back(q.y * f); w.push_back(q.z * f);
            }
        };
        std::vector<V> vel;
        for (auto& q : b) vel.push_back(q.v);
        push(vel, preg);
        push(a, vreg);
        if (dep) push(a, vreg);
        if (regu) { w.push_back(dom * vreg); w.push_back(dB * vreg); }
        L big = 1;
        for (auto q : w) big = std::max(big, fabsl(q));
        L d = worst(dv, w), tol = 4e4L * u * big;
        vh::maxi("margin:derivative", (double)(d / tol));
        fail(d <= tol, "derivative value", "off by ", d, " allowed ", tol);
        vh::count("derivatives compared");
        // agreement with what kicks and drifts actually do to the exported variables (central differences)
        auto moved = [&](double e, bool drift) { Sys q = s; if (drift) q.drift(S(e)); else q.kick(S(e)); return exported(q); };
        double e = 1e-4 * h;
        auto p1 = moved(e, true), m1 = moved(-e, true), p2 = moved(e, false), m2 = moved(-e, false);
        L wd = 0;
        for (size_t i = 0; i < want; ++i) wd = std::max(wd, fabsl(((p1[i] - m1[i]) + (p2[i] - m2[i])) / (2 * e) - w[i]));
        L tol2 = big * (1e-8L + 1e3L * u / e);
        vh::maxi("margin:kick and drift follow the derivative", (double)(wd / tol2));
        fail(wd <= tol2, "kick and drift follow the derivative", "off by ", wd, " allowed ", tol2);
    }
    // ---- increments describe the same variables
    {
        Sys q = s, r = s;
        q.collect_increment(true);
        q.clear_increment();
        auto y0 = exported(q);
        int k = (int)rng.i(1, 6);
        for (int i = 0; i < k; ++i) { step(q, h); step(r, h); }
        auto y1 = exported(q), inc = vals(q.increment());
        fail(worst(exported(r), y1) == 0, "collecting increments changes the evolution");
        fail(inc.size() == want, "increment size", inc.size());
        if (inc.size() == want) {
            L d = 0;
            size_t at = 0;
            for (size_t i = 0; i < want; ++i) { L e = fabsl(y1[i] - y0[i] - inc[i]) / (1 + fabsl(y0[i]) + fabsl(y1[i])); if (!(e <= d)) { d = e; at = i; } }
            L tol = 16 * u * k;
            vh::maxi("margin:increments", (double)(d / tol));
            fail(d <= tol, "increments", "variable ", at, " of ", want, " off by ", d, " allowed ", tol, " change ", y1[at] - y0[at], " increment ", inc[at]);
            vh::count("increments compared");
        }
        q.clear_increment();
        fail(worst(vals(q.increment()), std::vector<L>(want, 0)) == 0, "clear_increment");
        q.collect_increment(false);
        step(q, h);
        fail(worst(vals(q.increment()), std::vector<L>(want, 0)) == 0, "increment collected although switched off");
    }
    // ---- restore after evolving, and into a twin
    auto future = [&](Sys q) { for (int k = 0; k < 3; ++k) step(q, h); auto o = observe(q); auto e = exported(q); o.insert(o.end(), e.begin(), e.end()); return o; };
    auto obs0 = observe(s), id0 = identity(s), fut0 = future(s);
    Sys copy = s;
    L hscale = 1;
    for (auto q : fut0) hscale = std::max(hscale, fabsl(q));
    L tol = chain ? 1e3L * u * hscale * n : 0;
    auto restored = [&](Sys& q, const char* what) {
        fail(worst(exported(q), yv) == 0, what, "exported again differs by ", worst(exported(q), yv));
        L d = worst(observe(q), obs0);
        vh::maxi(vh::cat("margin:", what), tol > 0 ? (double)(d / tol) : 0);
        fail(d <= tol, what, "observables differ by ", d);
        fail(worst(identity(q), id0) == 0, what, "masses or identities changed");
        L f = worst(future(q), fut0);
        fail(f <= tol * 100, what, "future differs by ", f, " allowed ", tol * 100);
        vh::count(what);
    };
    int k = (int)rng.i(1, 5);
    for (int i = 0; i < k; ++i) step(s, h * rng.u(0.5, 1.5));
    fail(worst(exported(s), yv) > 0, "evolution moves the state");
    s.read_from_scalar_array(y);
    restored(s, "restore into the same system");
    restored(copy, "copy");
    bool same_chain = true;
    if constexpr (chain) for (int i = 0; i < n; ++i) same_chain = same_chain && twin.index(i) == s.index(i);
    if (same_chain) {
        twin.pre_iter_process();
        twin.read_from_scalar_array(y);
        restored(twin, "restore into another system");
    }
    same_chain = true;
    if constexpr (chain) for (int i = 0; i < n; ++i) same_chain = same_chain && stranger.index(i) == s.index(i);
    if (same_chain) {
        if (rng.chance(0.5)) stranger.pre_iter_process(), step(stranger, h);
        stranger.pre_iter_process();
        stranger.read_from_scalar_array(y);
        restored(stranger, "restore into a system in another state");
    }
    if (dep && mid) vh::count("snapshots with distinct auxiliary velocities");
}
template <class Ty>
static void all(vh::Rng& rng, std::string t) {
    using N = force::Interactions<force::NewtonianGrav>;
    using SP = force::Interactions<force::NewtonianGrav, Spring>;
    using D = force::Interactions<force::NewtonianGrav, Drag>;
    using SD = force::Interactions<force::NewtonianGrav, Drag, Spring>;
    auto four = [&](auto tag, std::string f, bool indep) {
        using I = decltype(tag);
        one<Simple, Ty, I>(rng, t + " simple " + f, indep);
        one<Chain_, Ty, I>(rng, t + " chain " + f, indep);
        one<Regu, Ty, I>(rng, t + " LogH " + f, indep);
        one<ReguTTL, Ty, I>(rng, t + " TTL " + f, indep);
        one<ReguNone, Ty, I>(rng, t + " None " + f, indep);
        one<ARC, Ty, I>(rng, t + " chain LogH " + f, indep);
        one<ARCTTL, Ty, I>(rng, t + " chain TTL " + f, indep);
    };
    four(N(), "gravity", false);
    four(SP(), "spring", true);
    four(D(), "drag", false);
    four(SD(), "spring and drag", true);
}
void vh_main() {
#ifndef ONLY_EXTENDED
    vh::cases("double", vh::scale(800, 20000), [](vh::Rng& r, long) { all<Types<double, Vec3>>(r, "double"); });
    vh::cases("compensated", vh::scale(500, 10000), [](vh::Rng& r, long) { all<Types<double_k, Vec3>>(r, "double_k"); });
#else
    vh::cases("long double", vh::scale(300, 6000), [](vh::Rng& r, long) { all<Types<long double, Vec3>>(r, "long double"); });
#endif
}
