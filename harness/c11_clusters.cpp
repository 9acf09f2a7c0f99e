// C11: cluster helpers compute and move the quantities they name
#include <deque>
#include <list>
#include "vh.hpp"
#include "ref.hpp"
#include "spaceHub.hpp"
#include "secular.hpp"
using namespace hub;
using ref::L;
using ref::V;
using Vec = Vec3<double>;
using PP = particles::PointParticle<Vec>;
using SP = particles::SizeParticle<Vec>;
static const L EPS = 2.220446049250313e-16L;

template <class P> struct Mk;
template <> struct Mk<PP> { static PP mk(double m, double, Vec p, Vec v) { return PP{m, p, v}; } static L rad(PP const&) { return 0; } };
template <> struct Mk<SP> { static SP mk(double m, double r, Vec p, Vec v) { return SP{m, r, p, v}; } static L rad(SP const& p) { return p.radius; } };

static Vec rv(vh::Rng& g, double s) { return Vec(s * g.normal(), s * g.normal(), s * g.normal()); }

template <class P>
static std::vector<P> draw(vh::Rng& g, int n, double offset_scale) {
    double ms = g.logu(1e-8, 1e8), ps = g.logu(1e-4, 1e4), vs = g.logu(1e-4, 1e4);
    double spread = g.chance(0.3) ? 1e4 : 3;
    Vec p0 = rv(g, ps * offset_scale), v0 = rv(g, vs * offset_scale);
    std::vector<P> v;
    for (int i = 0; i < n; ++i) {
        double m = ms * g.logu(1 / spread, spread);
        v.push_back(Mk<P>::mk(m, g.logu(1e-3, 1) * ps, p0 + rv(g, ps), v0 + rv(g, vs)));
    }
    if (n > 2 && g.chance(0.2)) v[g.i(0, n - 1)].mass = 0;
    return v;
}

// textbook values in long double
struct Truth {
    L m = 0, ek = 0, ep = 0, ekc = 0, size = 0, psc = 0, vsc = 0, eabs = 0;
    V p, v;
};
template <class C>
static Truth truth(C const& c) {
    Truth t;
    using P = typename C::value_type;
    size_t n = c.size();
    for (auto& q : c) {
        t.m += q.mass;
        t.p += V::of(q.pos) * (L)q.mass;
        t.v += V::of(q.vel) * (L)q.mass;
        t.ek += 0.5L * q.mass * dot(V::of(q.vel), V::of(q.vel));
        t.psc = std::max(t.psc, norm(V::of(q.pos)));
        t.vsc = std::max(t.vsc, norm(V::of(q.vel)));
    }
    t.p = t.p / t.m; t.v = t.v / t.m;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            L d = dist(V::of(c[i].pos), V::of(c[j].pos));
            t.ep -= (L)consts::G * c[i].mass * c[j].mass / d;
            t.size = std::max(t.size, d);
        }
    if (n == 1) t.size = Mk<P>::rad(c[0]);
    t.ekc = 0.5L * t.m * dot(t.v, t.v);
    t.eabs = t.ek - t.ep + t.ekc;
    return t;
}
static void vclose(Vec const& g, V const& w, L tol, std::string const& key, std::string const& ctx) {
    L d = dist(V::of(g), w);
    if (tol > 0) vh::maxi("margin:" + key, (double)(d / tol));
    if (!(d <= tol)) vh::viol(key, vh::cat("got ", g, " want ", (double)w.x, " ", (double)w.y, " ", (double)w.z, " |diff| ", d, " tol ", tol, " ", ctx));
}

// every quantity through one calling form F (takes a callable receiving "the pack")
template <class P, class Call>
static void quantities(std::vector<P> const& c, Truth const& t, Call call, std::string const& form) {
    int n = c.size();
    L tol = (8 + n) * EPS;
    std::string ctx = form + " n=" + std::to_string(n);
    // every separation comes from a subtraction of rounded positions: the positions themselves are exact inputs
    L dmin = 1e300L;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) dmin = std::min(dmin, dist(V::of(c[i].pos), V::of(c[j].pos)));
    L psep = n > 1 ? tol * (1 + t.psc / dmin) : tol;
    call([&](auto const&... a) {
        vh::close(orbit::M_tot(a...), t.m, tol * t.m, "M_tot", ctx);
        vclose(orbit::COM_p(a...), t.p, tol * t.psc, "COM_p", ctx);
        vclose(orbit::COM_v(a...), t.v, tol * t.vsc, "COM_v", ctx);
        vh::close(orbit::E_k(a...), t.ek, tol * t.ek, "E_k", ctx);
        vh::close(orbit::E_p(a...), t.ep, psep * -t.ep, "E_p", ctx);
        L kc = 4 * tol * t.m * t.vsc * t.vsc;
        vh::close(orbit::E_k_COM(a...), t.ekc, kc, "E_k_COM", ctx);
        vh::close(orbit::E_tot(a...), t.ek + t.ep, tol * t.ek - psep * t.ep, "E_tot", ctx);
        vh::close(orbit::E_inner(a...), t.ek + t.ep - t.ekc, 2 * tol * t.ek - 2 * psep * t.ep + kc, "E_inner", ctx);
        vh::close(orbit::cluster_size(a...), t.size, n == 1 ? 0 : tol * (t.size + t.psc * 0.1L), "cluster_size", ctx);
    });
    vh::count("quantity sets: " + form);
}

// same relative geometry, centre of mass where asked
template <class P>
static void moved(std::vector<P> const& a, std::vector<P> const& b, V const* pw, V const* vw, std::string const& form) {
    Truth ta = truth(a), tb = truth(b);
    int n = a.size();
    L pt = (10 + n) * EPS * (ta.psc + tb.psc + (pw ? norm(*pw) : 0)), vt = (10 + n) * EPS * (ta.vsc + tb.vsc + (vw ? norm(*vw) : 0));
    auto lab = [&](V const& g, V const& w, L tol, const char* k) {
        L d = dist(g, w);
        vh::maxi(std::string("margin:") + k, (double)(d / tol));
        if (!(d <= tol)) vh::viol(k, vh::cat(form, " n=", n, " |diff| ", d, " tol ", tol));
    };
    if (pw) lab(tb.p, *pw, pt, "move.com position");
    if (vw) lab(tb.v, *vw, vt, "move.com velocity");
    for (int i = 0; i < n; ++i) {
        vh::expect(a[i].mass == b[i].mass && Mk<P>::rad(a[i]) == Mk<P>::rad(b[i]), "move.changes mass or radius", form);
        for (int j = i + 1; j < n; ++j) {
            lab(V::of(b[i].pos) - V::of(b[j].pos), V::of(a[i].pos) - V::of(a[j].pos), pt, "move.relative position");
            lab(V::of(b[i].vel) - V::of(b[j].vel), V::of(a[i].vel) - V::of(a[j].vel), vt, "move.relative velocity");
        }
        if (!pw) vh::expect(a[i].pos.x == b[i].pos.x && a[i].pos.y == b[i].pos.y && a[i].pos.z == b[i].pos.z, "move.velocity move touches positions", form);
        if (!vw) vh::expect(a[i].vel.x == b[i].vel.x && a[i].vel.y == b[i].vel.y && a[i].vel.z == b[i].vel.z, "move.position move touches velocities", form);
    }
    vh::count("moves: " + form.substr(0, form.find(' ')));
}

template <class P, class F>
static void as_pack(std::vector<P>& c, F f) {
    switch (c.size()) {
        case 1: f(c[0]); break;
        case 2: f(c[0], c[1]); break;
        case 3: f(c[0], c[1], c[2]); break;
        case 4: f(c[0], c[1], c[2], c[3]); break;
        case 5: f(c[0], c[1], c[2], c[3], c[4]); break;
        default: f(c[0], c[1], c[2], c[3], c[4], c[5]); break;
    }
}

template <class P>
static void one(vh::Rng& g, long i, const char* type) {
    int n = 1 + i % 6;
    double off = g.pick(std::vector<double>{0, 1, 100});
    auto c = draw<P>(g, n, off);
    Truth t = truth(c);
    vh::eval(vh::mix(vh::bits_of(t.m)) ^ n);
    vh::count(std::string(type) + " n=" + std::to_string(n));
    quantities(c, t, [&](auto f) { as_pack(c, f); }, std::string("arguments ") + type);
    quantities(c, t, [&](auto f) { f(c); }, std::string("container ") + type);
    std::deque<P> dq(c.begin(), c.end());
    quantities(c, t, [&](auto f) { f(dq); }, std::string("deque ") + type);
    if (g.chance(0.02)) vh::sample(vh::cat(type, " n=", n, " m=", (double)t.m, " E=", (double)(t.ek + t.ep)));

    // ---- moves
    V pw(g.normal() * g.logu(1e-3, 1e3), g.normal(), g.normal()), vw(g.normal(), g.normal() * g.logu(1e-3, 1e3), g.normal());
    Vec pv(pw.x, pw.y, pw.z), vv(vw.x, vw.y, vw.z);
    pw = V::of(pv); vw = V::of(vv);
    V zero;
    {
        auto b = c; as_pack(b, [&](auto&... a) { orbit::move_particles(pv, vv, a...); }); moved(c, b, &pw, &vw, "state arguments");
        b = c; orbit::move_particles(pv, vv, b); moved(c, b, &pw, &vw, "state container");
        b = c; as_pack(b, [&](auto&... a) { orbit::move_particles_pos(pv, a...); }); moved(c, b, &pw, nullptr, "pos arguments");
        b = c; orbit::move_particles_pos(pv, b); moved(c, b, &pw, nullptr, "pos container");
        b = c; as_pack(b, [&](auto&... a) { orbit::move_particles_vel(vv, a...); }); moved(c, b, nullptr, &vw, "vel arguments");
        b = c; orbit::move_particles_vel(vv, b); moved(c, b, nullptr, &vw, "vel container");
        b = c; as_pack(b, [&](auto&... a) { orbit::move_to_COM_frame(a...); }); moved(c, b, &zero, &zero, "frame arguments");
        b = c; orbit::move_to_COM_frame(b); moved(c, b, &zero, &zero, "frame container");
        b = c;  // a target that lives inside the group being moved
        orbit::move_particles(b[0].pos, b[0].vel, b);
        V p0 = V::of(c[0].pos), v0 = V::of(c[0].vel);
        moved(c, b, &p0, &v0, "alias container");
    }
    // ---- moving onto an orbit: the centre of mass takes the orbit's state
    {
        double e = g.pick(std::vector<double>{0.0, 0.3, 0.9, 1.7});
        auto orb = orbit::KeplerOrbit<double>(g.logu(0.1, 10), (double)t.m, g.logu(0.1, 10), e, g.u(0, 3), g.u(-3, 3), g.u(-3, 3), g.u(-1.5, 1.5));
        auto [op, ov] = orbit::orbit_to_coord<Vec>(orb);
        V opw = V::of(op), ovw = V::of(ov);
        auto b = c; as_pack(b, [&](auto&... a) { orbit::move_particles(orb, a...); }); moved(c, b, &opw, &ovw, "orbit arguments");
    }
    // ---- two groups
    int n2 = 1 + g.i(0, 4);
    auto d = draw<P>(g, n2, off);
    if (g.chance(0.5)) for (auto& q : d) { q.pos = q.pos + rv(g, (double)t.size * 10 + 1); }
    Truth u = truth(d);
    L r = dist(t.p, u.p);
    L rrel = 30 * EPS * (1 + (t.psc + u.psc) / r);
    if (rrel < 1e-6L) {
        std::string ctx = vh::cat(type, " ", n, "+", n2);
        vh::count("pairs of groups");
        vh::close(orbit::M_rdc(c, d), t.m * u.m / (t.m + u.m), 20 * EPS * t.m * u.m / (t.m + u.m), "M_rdc", ctx);
        L f1 = u.m / t.m * powl(t.size / r, 3), f2 = t.m / u.m * powl(u.size / r, 3);
        L srel1 = 20 * EPS * (1 + (t.size > 0 ? t.psc / t.size : 0)), srel2 = 20 * EPS * (1 + (u.size > 0 ? u.psc / u.size : 0));
        auto [g1, g2] = orbit::tidal_factor(c, d);
        vh::close(g1, f1, f1 * 4 * (rrel + srel1), "tidal_factor.1", ctx);
        vh::close(g2, f2, f2 * 4 * (rrel + srel2), "tidal_factor.2", ctx);
        double R1 = g.logu(1e-3, 1e3), R2 = g.logu(1e-3, 1e3);
        auto [h1, h2] = orbit::tidal_factor(c, d, R1, R2);
        vh::close(h1, u.m / t.m * powl(R1 / r, 3), 4 * rrel * u.m / t.m * powl(R1 / r, 3), "tidal_factor.R1", ctx);
        vh::close(h2, t.m / u.m * powl(R2 / r, 3), 4 * rrel * t.m / u.m * powl(R2 / r, 3), "tidal_factor.R2", ctx);
        auto [k1, k2] = orbit::tidal_factor((double)r, (double)t.m, (double)u.m, R1, R2);
        vh::close(k1, u.m / t.m * powl(R1 / r, 3), 30 * EPS * u.m / t.m * powl(R1 / r, 3), "tidal_factor.scalar1", ctx);
        vh::close(k2, t.m / u.m * powl(R2 / r, 3), 30 * EPS * t.m / u.m * powl(R2 / r, 3), "tidal_factor.scalar2", ctx);
        // the tidal radius is the separation at which the factor of the second body takes the given value
        double fac = g.logu(1e-6, 1e2);
        L tr = powl(t.m / (fac * u.m), 1.0L / 3) * u.size, trR = powl(t.m / (fac * u.m), 1.0L / 3) * R2;
        vh::close(orbit::tidal_radius(fac, c, d), tr, tr * (60 * EPS + srel2), "tidal_radius.groups", ctx);
        vh::close(orbit::tidal_radius(fac, c, d, R2), trR, trR * 60 * EPS, "tidal_radius.groups R", ctx);
        double sr = orbit::tidal_radius(fac, (double)t.m, (double)u.m, R2);
        vh::close(sr, trR, trR * 60 * EPS, "tidal_radius.scalar", ctx);
        auto back = orbit::tidal_factor(sr, (double)t.m, (double)u.m, R1, R2);
        vh::close(std::get<1>(back), (L)fac, (L)fac * 300 * EPS, "tidal_radius inverts tidal_factor", ctx);
        L trb = std::max(trR, powl(u.m / (fac * t.m), 1.0L / 3) * R1);
        vh::close(orbit::tidal_radius(fac, (double)t.m, (double)u.m, R1, R2), trb, trb * 60 * EPS, "tidal_radius.both", ctx);
        // single particle against a group
        vh::close(orbit::M_rdc(c, d[0]), t.m * d[0].mass / (t.m + d[0].mass), 20 * EPS * t.m * d[0].mass / (t.m + d[0].mass), "M_rdc.mixed", ctx);
        // tidal energy scales as the documented interaction: proportional to both masses and to the sizes, with the inverse square of distance
        L et = -(L)consts::G * t.m * u.m * (t.size + u.size) / (r * r), etR = -(L)consts::G * t.m * u.m * ((L)R1 + R2) / (r * r);
        vh::close(orbit::E_tid(c, d), et, fabsl(et) * 4 * (rrel + srel1 + srel2), "E_tid", ctx);
        vh::close(orbit::E_tid(c, d, R1, R2), etR, fabsl(etR) * 4 * rrel, "E_tid.R", ctx);
        // groups act as their centres of mass on each other
        V dr = t.p - u.p, dv = t.v - u.v;
        L mu = (L)consts::G * (t.m + u.m), v2 = dot(dv, dv), rr = norm(dr);
        L a = 1 / (2 / rr - v2 / mu);
        L cond = 60 * EPS * ((t.psc + u.psc) / rr + 1 + (t.vsc + u.vsc) / norm(dv)) * (2 / rr + v2 / mu);
        L ainv_tol = cond;
        vh::close(1.0L / orbit::calc_semi_major_axis(c, d), 1 / a, ainv_tol, "semi-major axis of groups", ctx);
        V ev = (dr * (v2 - mu / rr) - dv * dot(dr, dv)) / mu;
        L etol = 60 * EPS * ((t.psc + u.psc) / rr + 1 + (t.vsc + u.vsc) / norm(dv)) * (2 * v2 * rr / mu + 2);
        vh::close(orbit::calc_eccentricity(c, d), norm(ev), etol, "eccentricity of groups", ctx);
        auto [aa, ee] = orbit::calc_a_e(c, d);
        vh::close(1.0L / aa, 1 / a, ainv_tol, "calc_a_e of groups.a", ctx);
        vh::close(ee, norm(ev), etol, "calc_a_e of groups.e", ctx);
        if (a > 0 && ainv_tol * a < 1e-6L) {
            L T = 2 * ref::PI * sqrtl(a * a * a / mu);
            vh::close(orbit::period(c, d), T, T * (100 * EPS + 3 * ainv_tol * a), "period of groups", ctx);
            vh::count("bound pairs");
        }
    }
}
void vh_main() {
    vh::cases("point", vh::scale(24000, 400000), [](vh::Rng& g, long i) { one<PP>(g, i, "point"); });
    vh::cases("secular", vh::scale(20000, 200000), [](vh::Rng& g, long) {
        double m1 = g.logu(1e-6, 1e6), m2 = g.chance(0.1) ? 0 : g.logu(1e-6, 1e6), m3 = g.logu(1e-6, 1e6), a1 = g.logu(1e-6, 1e6), a2 = a1 * g.logu(2, 1e4), e2 = g.chance(0.1) ? 0 : g.chance(0.2) ? 1 - g.logu(1e-6, 1) : g.u(0, 1);
        L w = sqrtl((1 - (L)e2) * (1 + (L)e2)) * a2 / a1;
        L want = 2 * ref::PI * sqrtl((L)a1 * a1 * a1 / ((L)consts::G * ((L)m1 + m2))) * ((L)m1 + m2) / m3 * w * w * w;
        std::string ctx = vh::cat("m ", m1, " ", m2, " ", m3, " a ", a1, " ", a2, " e2 ", e2);
        L tol = want * (40 * EPS + 4 * EPS / (1 - e2));
        vh::close(secular::ELK_quad_timescale(m1, m2, m3, a1, a2, e2), want, tol, "Lidov-Kozai timescale", ctx);
        orbit::Elliptic in(m1, m2, a1, g.u(0, 0.99), g.u(0, 3), g.u(-3, 3), g.u(-3, 3), g.u(-3, 3)), out(m1 + m2, m3, a2, e2, g.u(0, 3), g.u(-3, 3), g.u(-3, 3), g.u(-3, 3));
        vh::close(secular::ELK_quad_timescale(in, out), want, tol, "Lidov-Kozai timescale of two orbits", ctx);
        vh::count("Lidov-Kozai timescales", 2);
        vh::eval(vh::mix(vh::bits_of(a1) ^ vh::mix(vh::bits_of(e2))));
    });
    vh::cases("finite", vh::scale(24000, 400000), [](vh::Rng& g, long i) { one<SP>(g, i, "size"); });
}
