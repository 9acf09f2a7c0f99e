// C15: force laws equal their published formulae in every coordinate representation.
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using ref::V;

#include "laws.hpp"
static Acc reference(Law law, std::vector<RB> const& b) {
    size_t n = b.size();
    Acc o{std::vector<V>(n), std::vector<L>(n, 0)};
    L pmax = 0;
    g_vmax = 0;
    for (auto& q : b) { pmax = std::max(pmax, ref::norm(q.r)); g_vmax = std::max(g_vmax, 3 * ref::norm(q.v)); }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (i != j) {
                V a;
                L m;
                pair_law(law, b[i], b[j], a, m);
                o.a[i] += a;
                o.mag[i] += m * (8 + 10 * pmax / ref::dist(b[i].r, b[j].r));
            }
    return o;
}

// ---- user forces
struct Spring {  // velocity independent, external
    static constexpr bool vel_dependent = false;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { auto q = p.pos(i); a[i].x -= 0.3 * q.x; a[i].y -= 0.5 * q.y; a[i].z -= 0.7 * q.z; }
    }
};
struct Drag {
    static constexpr bool vel_dependent = true;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { auto q = p.vel(i); a[i].x -= 0.2 * q.x; a[i].y -= 0.1 * q.y; a[i].z -= 0.4 * q.z; }
    }
};
static void user(int which, std::vector<RB> const& b, std::vector<V>& a, std::vector<L>& mag) {
    for (size_t i = 0; i < b.size(); ++i) {
        V q = which == 0 ? V(-0.3 * b[i].r.x, -0.5 * b[i].r.y, -0.7 * b[i].r.z) : V(-0.2 * b[i].v.x, -0.1 * b[i].v.y, -0.4 * b[i].v.z);
        a[i] += q;
        mag[i] += 8 * ref::norm(q);
    }
}

using force::NewtonianGrav; using force::PN1; using force::PN2; using force::PN2p5; using force::Tidal;

// bit mask of terms: 1 N, 2 PN1, 4 PN2, 8 PN2p5, 16 tide, 32 spring, 64 drag
static Acc ref_sum(int mask, std::vector<RB> const& b) {
    Acc t{std::vector<V>(b.size()), std::vector<L>(b.size(), 0)};
    Law laws[5] = {NEWTON, PN1_, PN2_, PN25_, TIDE};
    for (int l = 0; l < 5; ++l)
        if (mask >> l & 1) {
            Acc o = reference(laws[l], b);
            for (size_t i = 0; i < b.size(); ++i) { t.a[i] += o.a[i]; t.mag[i] += o.mag[i]; }
        }
    if (mask & 32) user(0, b, t.a, t.mag);
    if (mask & 64) user(1, b, t.a, t.mag);
    return t;
}

template <class Sys>
static std::vector<RB> snapshot(Sys const& s) {
    std::vector<RB> b;
    for (size_t i = 0; i < s.number(); ++i) {
        RB q;
        q.m = (L)s.mass(i); q.R = (L)s.radius(i); q.k = (L)s.tide_apsidal_const(i); q.tau = (L)s.tide_lag_time(i);
        q.r = V((L)(double)s.pos(i).x, (L)(double)s.pos(i).y, (L)(double)s.pos(i).z);
        q.v = V((L)(double)s.vel(i).x, (L)(double)s.vel(i).y, (L)(double)s.vel(i).z);
        b.push_back(q);
    }
    return b;
}
template <class Arr>
static void garbage(Arr& a, vh::Rng& r) {
    for (auto& q : a) { q.x = r.normal() * 1e6; q.y = r.normal() * 1e6; q.z = -3e5; }
}
template <class Arr>
static void judge(const char* form, int mask, const char* part, Arr const& got, Acc const& want, std::string const& ctx) {
    L worst = 0;
    for (size_t i = 0; i < want.a.size(); ++i) {
        V g((L)got[i].x, (L)got[i].y, (L)got[i].z);
        L d = ref::norm(g - want.a[i]), tol = 16 * EPS * want.mag[i] + 1e-300L;
        if (!(d <= tol)) { vh::viol(vh::cat("acceleration ", part), vh::cat(form, " mask ", mask, " body ", i, " of ", want.a.size(), ": off by ", d, " allowed ", tol, " |a| ", ref::norm(want.a[i]), " ", ctx)); return; }
        worst = std::max(worst, d / tol);
    }
    vh::maxi(vh::cat("margin:", part), (double)worst);
    vh::count(vh::cat("arrays ", part));
}
template <class Sys>
static void check_system(const char* form, Sys& s, int internal, int indep, int dep, vh::Rng& rng, std::string const& ctx) {
    using I = typename Sys::Interaction;
    using Arr = typename Sys::VectorArray;
    auto b = snapshot(s);
    for (auto& q : b)  // flung out by a random near-contact tide: r^8 leaves the range of double
        if (!(ref::norm(q.r) < 1e9L && ref::norm(q.v) < 1e9L)) { vh::count("flung out"); return; }
    Arr a(s.number());
    std::string c = ctx;
    garbage(a, rng);
    I::eval_acc(s, a);
    judge(form, internal | indep | dep, "total", a, ref_sum(internal | indep | dep, b), c);
    garbage(a, rng);
    s.evaluate_acc(a);
    judge(form, internal | indep | dep, "system total", a, ref_sum(internal | indep | dep, b), c);
    garbage(a, rng);
    I::eval_newtonian_acc(s, a);
    judge(form, internal, "internal", a, ref_sum(internal, b), c);
    if (indep | dep) {
        garbage(a, rng);
        I::eval_extra_acc(s, a);
        judge(form, indep | dep, "extra", a, ref_sum(indep | dep, b), c);
    }
    if (dep) {
        garbage(a, rng);
        I::eval_extra_vel_dep_acc(s, a);
        judge(form, dep, "extra velocity dependent", a, ref_sum(dep, b), c);
    }
    if (indep) {
        garbage(a, rng);
        I::eval_extra_vel_indep_acc(s, a);
        judge(form, indep, "extra velocity independent", a, ref_sum(indep, b), c);
    }
    vh::expect(I::ext_vel_dep == (dep != 0) && I::ext_vel_indep == (indep != 0), "configured kind of the extra forces", form, " dep ", dep, " indep ", indep);
    vh::count(std::string("systems: ") + form);
}

template <class Ty, class I>
static void forms(int internal, int indep, int dep, vh::Rng& rng, std::vector<particles::TideParticle<typename Ty::Vector>> const& ps, std::string const& ctx) {
    using P = particles::TideParticles<Ty>;
    using S = typename Ty::Scalar;
    double tstep = 1;
    for (size_t i = 0; i < ps.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            double d = (double)norm(ps[i].pos - ps[j].pos), v = (double)norm(ps[i].vel - ps[j].vel), m = (double)(ps[i].mass + ps[j].mass);
            tstep = std::min({tstep, d / v, std::sqrt(d * d * d / m)});
            if (dep & 16) {  // the tide may be far stronger than gravity
                double R = (double)std::max(ps[i].radius, ps[j].radius);
                tstep = std::min(tstep, std::pow(d / R, 2.5) * std::sqrt(d * d * d / m) * std::min<double>(1, std::sqrt((double)(std::min(ps[i].mass, ps[j].mass) / std::max(ps[i].mass, ps[j].mass)))));
            }
        }
    auto move_on = [&](auto& s) {  // an evolved system: relinked chains, non-trivial velocities
        int n = (int)rng.i(1, 3);
        for (int k = 0; k < n; ++k) {
            s.pre_iter_process();
            double h = rng.logu(1e-4, 1e-1) * (double)s.step_scale() * tstep;
            s.drift(S(h));
            s.kick(S(h * 0.1));
            s.drift(S(h));
            s.post_iter_process();
        }
    };
    system::SimpleSystem<P, I> a(S(0), ps);
    check_system("cartesian", a, internal, indep, dep, rng, ctx);
    move_on(a);
    check_system("cartesian evolved", a, internal, indep, dep, rng, ctx);
    if (ps.size() < 2) return;
    system::RegularizedSystem<P, I> r(S(0), ps);
    check_system("regularised", r, internal, indep, dep, rng, ctx);
    system::ChainSystem<P, I> c(S(0), ps);
    check_system("chain", c, internal, indep, dep, rng, ctx);
    move_on(c);
    check_system("chain evolved", c, internal, indep, dep, rng, ctx);
    system::ARchainSystem<P, I> ar(S(0), ps);
    check_system("regularised chain", ar, internal, indep, dep, rng, ctx);
}
template <class Ty>
static void one(vh::Rng& rng, long idx) {
    using Vec = typename Ty::Vector;
    using Part = particles::TideParticle<Vec>;
    int n = (int)rng.i(1, 9);
    int pick = (int)rng.i(0, 9);
    bool tide = pick == 4 || pick == 7;
    double scale = rng.chance(0.3) ? rng.logu(1e-10, 1e8) : rng.logu(1e-2, 1e2), vs = rng.logu(1e-2, 300);
    std::vector<Part> ps;
    auto off = rng.chance(0.3) ? rng.logu(1, 100) : 0.0;
    for (int i = 0; i < n; ++i) {
        double sc = scale * (rng.chance(0.3) ? rng.logu(1e-3, 1) : 1);
        Vec p(off * scale + sc * rng.normal(), sc * rng.normal(), -off * scale + sc * rng.normal());
        if (i > 0 && rng.chance(0.3)) {  // tight companion
            auto const& q = ps[rng.i(0, i - 1)].pos;
            double d = scale * rng.logu(rng.chance(0.2) && !tide ? 1e-9 : 1e-3, 1e-1);
            p = Vec(q.x + d * rng.normal(), q.y + d * rng.normal(), q.z + d * rng.normal());
        }
        Vec v(vs * rng.normal(), vs * rng.normal(), vs * rng.normal());
        if (rng.chance(0.15)) v = Vec(0, 0, 0);
        double m = rng.logu(1e-6, 1e4), R = rng.logu(1e-4, 1) * scale, k = rng.chance(0.4) ? 0 : rng.logu(1e-4, 0.5), tau = rng.chance(0.3) ? 0 : rng.logu(1e-6, 1);
        if (i > 0 && !tide && rng.chance(0.1)) { m = 0; vh::count("massless bodies"); }  // a tide on a massless body is 0/0
        ps.push_back(Part(m, R, k, tau, p, v));
    }
    std::string ctx = vh::cat("N=", n, " scale=", scale, " v=", vs, " offset=", off);
    vh::eval(vh::mix(idx) ^ vh::hash_str(ctx));
    switch (pick) {
        case 0: forms<Ty, force::Interactions<NewtonianGrav>>(1, 0, 0, rng, ps, ctx); break;
        case 1: forms<Ty, force::Interactions<NewtonianGrav, PN1>>(1, 0, 2, rng, ps, ctx); break;
        case 2: forms<Ty, force::Interactions<NewtonianGrav, PN2>>(1, 0, 4, rng, ps, ctx); break;
        case 3: forms<Ty, force::Interactions<NewtonianGrav, PN2p5>>(1, 0, 8, rng, ps, ctx); break;
        case 4: forms<Ty, force::Interactions<NewtonianGrav, Tidal>>(1, 0, 16, rng, ps, ctx); break;
        case 5: forms<Ty, force::Interactions<NewtonianGrav, PN1, PN2, PN2p5>>(1, 0, 14, rng, ps, ctx); break;
        case 6: forms<Ty, force::Interactions<NewtonianGrav, Spring, Drag>>(1, 32, 64, rng, ps, ctx); break;
        case 7: forms<Ty, force::Interactions<NewtonianGrav, Drag, Spring, Tidal>>(1, 32, 80, rng, ps, ctx); break;
        case 8: forms<Ty, force::Interactions<NewtonianGrav, Spring>>(1, 32, 0, rng, ps, ctx); break;
        case 9: forms<Ty, force::Interactions<Spring, NewtonianGrav, PN1>>(32, 1, 2, rng, ps, ctx); break;
    }
}

// ---- invariances measured on the library alone
template <class I, class Sys, class Part>
static std::vector<V> lib_acc(std::vector<Part> const& ps) {
    Sys s(0.0, ps);
    typename Sys::VectorArray a(ps.size());
    I::eval_acc(s, a);
    std::vector<V> o;
    for (auto& q : a) o.push_back(V::of(q));
    return o;
}
template <class I, template <class, class> class SysT>
static void invariance(const char* form, bool third_law, bool boost, vh::Rng& rng, int mask) {
    using Ty = Types<double, Vec3>;
    using P = particles::TideParticles<Ty>;
    using Part = typename P::Particle;
    using Vec = typename Ty::Vector;
    using Sys = SysT<P, I>;
    int n = (int)rng.i(2, 7);
    double vs = rng.logu(1e-2, 100);
    std::vector<Part> ps;
    for (int i = 0; i < n; ++i) {
        // coordinates on a coarse grid so that shifts and permutations are exact
        auto g = [&](double s) { return std::round(rng.normal() * s * 1024) / 1024; };
        ps.push_back(Part(rng.logu(1e-3, 1e3), rng.logu(1e-2, 0.3), rng.chance(0.3) ? 0 : rng.logu(1e-3, 0.5), rng.chance(0.3) ? 0 : rng.logu(1e-3, 1), Vec(g(1), g(1), g(1)), Vec(g(vs), g(vs), g(vs))));
    }
    std::vector<RB> b;
    for (auto& q : ps) b.push_back({q.mass, q.radius, q.tide_apsidal_const, q.tide_lag_time, V::of(q.pos), V::of(q.vel)});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            if (ref::dist(b[i].r, b[j].r) < 1e-2) return;
    Acc w = ref_sum(mask, b);
    auto a0 = lib_acc<I, Sys>(ps);
    auto same = [&](const char* what, std::vector<V> const& x, std::vector<V> const& y, L extra) {
        for (int i = 0; i < n; ++i) {
            L d = ref::norm(x[i] - y[i]), tol = EPS * w.mag[i] * (16 + extra);
            vh::maxi(vh::cat("margin:", what), (double)(d / tol));
            vh::expect(d <= tol, what, form, " mask ", mask, " N=", n, " body ", i, " differs by ", d, " allowed ", tol);
        }
        vh::count(std::string("invariance ") + what);
    };
    if (third_law) {
        V f;
        L m = 0;
        for (int i = 0; i < n; ++i) { f += a0[i] * b[i].m; m += w.mag[i] * b[i].m; }
        L d = ref::norm(f);
        vh::maxi("margin:third law", (double)(d / (8 * EPS * m)));
        vh::expect(d <= 8 * EPS * m, "third law", form, " mask ", mask, " N=", n, " net force ", d, " allowed ", 8 * EPS * m);
        vh::count("invariance third law");
    }
    {  // order
        std::vector<int> perm(n);
        for (int i = 0; i < n; ++i) perm[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[rng.i(0, i)]);
        std::vector<Part> q;
        for (int i = 0; i < n; ++i) q.push_back(ps[perm[i]]);
        auto a1 = lib_acc<I, Sys>(q);
        std::vector<V> back(n);
        for (int i = 0; i < n; ++i) back[perm[i]] = a1[i];
        same("particle order", back, a0, 0);
    }
    {  // origin
        auto q = ps;
        Vec sh(std::ldexp(rng.i(-64, 64), -3), std::ldexp(rng.i(-64, 64), -3), std::ldexp(rng.i(-64, 64), -3));
        for (auto& x : q) x.pos += sh;
        same("position origin", lib_acc<I, Sys>(q), a0, 0);
    }
    if (boost) {
        auto q = ps;
        Vec sh(std::ldexp(rng.i(-64, 64), -3), std::ldexp(rng.i(-64, 64), -3), std::ldexp(rng.i(-64, 64), -3));
        for (auto& x : q) x.vel += sh;
        same("common velocity", lib_acc<I, Sys>(q), a0, 64 / vs);
    }
    {  // mirror and axis permutation are exact operations; a generic rotation is not, but covered by the reference comparison
        auto q = ps;
        auto rot = [](auto& v) { auto t = v.x; v.x = v.y; v.y = v.z; v.z = -t; };  // det = -1: includes parity
        for (auto& x : q) { rot(x.pos); rot(x.vel); }
        auto a1 = lib_acc<I, Sys>(q);
        auto ex = a0;
        for (auto& x : ex) rot(x);
        same("frame orientation", a1, ex, 0);
    }
    vh::eval(rng.next());
}
template <class P, class I> using Simple = system::SimpleSystem<P, I>;
template <class P, class I> using Chain_ = system::ChainSystem<P, I>;
template <class P, class I> using Regu = system::RegularizedSystem<P, I>;
template <class P, class I> using ARC = system::ARchainSystem<P, I>;

void vh_main() {
    vh::cases("double", vh::scale(6000, 120000), [](vh::Rng& r, long i) { one<Types<double, Vec3>>(r, i); });
    vh::cases("compensated", vh::scale(2000, 40000), [](vh::Rng& r, long i) { one<Types<double_k, Vec3>>(r, i); });
    vh::cases("long double", vh::scale(2000, 40000), [](vh::Rng& r, long i) { one<Types<long double, Vec3>>(r, i); });
    vh::cases("invariance", vh::scale(4000, 80000), [](vh::Rng& r, long i) {
        using N = force::Interactions<NewtonianGrav>;
        using T = force::Interactions<NewtonianGrav, Tidal>;
        using A = force::Interactions<NewtonianGrav, PN1, PN2, PN2p5>;
        invariance<N, Simple>("cartesian", true, true, r, 1);
        invariance<N, Chain_>("chain", true, true, r, 1);
        invariance<T, Simple>("cartesian", true, true, r, 17);
        invariance<T, ARC>("regularised chain", true, true, r, 17);
        invariance<A, Regu>("regularised", false, false, r, 15);
        invariance<A, ARC>("regularised chain", false, false, r, 15);
    });
}
