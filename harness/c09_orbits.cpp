// C09: orbital elements <-> Cartesian states
#include "vh.hpp"
#include "ref.hpp"
#include "spaceHub.hpp"
using namespace hub;
using ref::L;
using ref::V;
using Vec = Vec3<double>;
using Orb = orbit::KeplerOrbit<double>;
static const double EPS = 2.220446049250313e-16;

struct Elem { double m1, m2, p, e, i, Om, w, nu; int cls; };

static double special(vh::Rng& g) { return g.i(-4, 4) * (consts::pi / 2); }

static Elem draw(vh::Rng& g, long idx) {
    Elem q;
    q.m1 = g.logu(1e-6, 1e4);
    q.m2 = g.chance(0.2) ? q.m1 : g.logu(1e-6, 1e4);
    if (g.chance(0.05)) q.m2 = 0;
    q.p = g.logu(1e-6, 1e6);
    q.cls = idx % 5;
    switch (q.cls) {
        case 0: q.e = g.u(0.01, 0.99); break;
        case 1: q.e = g.chance(0.5) ? 1 + g.logu(1e-2, 10) : g.u(1.05, 3); break;
        case 2: q.e = 1.0; break;
        case 3: q.e = g.chance(0.5) ? 0.0 : g.logu(1e-14, 1e-2); break;
        default: q.e = g.u(0.99, 0.9999); break;
    }
    q.i = acos(g.u(-1, 1));
    q.Om = g.u(-consts::pi, consts::pi);
    q.w = g.u(-consts::pi, consts::pi);
    if (g.chance(0.25)) q.i = g.pick(std::vector<double>{0, consts::pi / 2, consts::pi, 1e-9, 1e-3, consts::pi - 1e-4});
    else if (g.chance(0.1)) { q.i = g.logu(1e-12, 1e-2); if (g.chance(0.5)) q.i = consts::pi - q.i; }
    if (g.chance(0.25)) q.Om = special(g);
    if (g.chance(0.25)) q.w = special(g);
    if (g.chance(0.1)) q.Om += g.sign() * 2 * consts::pi;
    if (q.e < 1) q.nu = g.u(-consts::pi, consts::pi);
    else q.nu = g.u(-1, 1) * acos(-1 / q.e) * 0.97;
    if (g.chance(0.2)) q.nu = q.e < 1 ? special(g) : g.pick(std::vector<double>{0, 1, -1, consts::pi / 2 * 0.99});
    return q;
}
static std::string str(Elem const& q) {
    return vh::cat("m1=", q.m1, " m2=", q.m2, " p=", q.p, " e=", q.e, " i=", q.i, " Om=", q.Om, " w=", q.w, " nu=", q.nu);
}
static V dif(Vec const& a, V const& b) { return V::of(a) - b; }

// compare a state with the reference state; tolerance in units of local rounding
static void state_check(Elem const& q, Vec const& r, Vec const& v, V const& rr, V const& vv, L tolscale, std::string const& key) {
    L cond = 1 + std::fabs(q.e * sin(q.nu)) / std::fabs(1 + q.e * cos(q.nu));
    L dr = ref::norm(dif(r, rr)) / ref::norm(rr), dv = ref::norm(dif(v, vv)) / (sqrtl((q.m1 + q.m2) / q.p) * (1 + q.e));
    vh::close(dr, 0, tolscale * cond, key + ".pos", str(q));
    vh::close(dv, 0, tolscale * cond, key + ".vel", str(q));
}

template <class F>
static void round_trip(Elem const& q, Vec const& dr, Vec const& dv, F conv, std::string const& tag, double angle_cond) {
    Orb o = conv(q.m1, q.m2, dr, dv);
    std::string ctx = str(q) + " got " + vh::cat("p=", o.p, " e=", o.e, " i=", o.i, " Om=", o.Omega, " w=", o.omega, " nu=", o.nu);
    if (!vh::expect(std::isfinite(o.p) && std::isfinite(o.e) && std::isfinite(o.i) && std::isfinite(o.Omega) && std::isfinite(o.omega) && std::isfinite(o.nu),
                    tag + ".finite", ctx)) return;
    vh::expect(o.m1 == q.m1 && o.m2 == q.m2, tag + ".mass", ctx);
    vh::expect(o.orbit_type == orbit::classify_orbit(o.e), tag + ".type", ctx);
    if (q.e < 0.999 ) vh::expect(o.orbit_type == orbit::OrbitType::Ellipse, tag + ".type", ctx);
    if (q.e > 1.001) vh::expect(o.orbit_type == orbit::OrbitType::Hyperbola, tag + ".type", ctx);
    L k = 1 + std::fabs(q.e * sin(q.nu)) / std::fabs(1 + q.e * cos(q.nu));
    // e: absolute error of the eccentricity vector
    vh::close(o.e, q.e, 1e-13L * k * (1 + q.e) * (1 + q.e), tag + ".e", ctx);
    L near1 = std::max<double>(std::fabs(1 - q.e), 1e-3);
    vh::close(o.p / q.p, 1, 1e-13L * k * (1 + q.e) * (1 + q.e) / (q.cls == 2 ? 1 : near1), tag + (q.cls == 2 ? ".p-parabola" : ".p"), ctx);
    // orientation: angular momentum direction and in-plane direction of the body and of periapsis
    auto dirs = [](L i, L Om, L w, L nu, V& n, V& u, V& pe) {
        n = ref::rotate(V(0, 0, 1), Om, i, w);
        u = ref::rotate(V(cosl(nu), sinl(nu), 0), Om, i, w);
        pe = ref::rotate(V(1, 0, 0), Om, i, w);
    };
    V n1, u1, p1, n2, u2, p2;
    dirs(q.i, q.Om, q.w, q.nu, n1, u1, p1);
    dirs(o.i, o.Omega, o.omega, o.nu, n2, u2, p2);
    // an arc cosine loses digits as 1/sin, half of them at most; a direction of E or N that is mostly rounding loses more
    L amp = k * (1 + q.e) * (1 + q.e) / near1, A = 0;
    for (double t : {q.i, q.Om, q.w, q.nu}) A += 1e-14L * amp / std::max(std::fabs(sinl(t)), 1e-7L * amp);
    if (q.e > 0 && q.e < 1e-2) A += std::min(1.0L, 1e-28L * amp * amp / (q.e * q.e)) / std::max({std::fabs(sinl(q.nu)), std::fabs(sinl(q.w)), 1e-7L});
    if (std::fabs(sinl(q.i)) < 1e-2L) A += std::min(1.0L, 1e-28L * amp * amp / (sinl(q.i) * sinl(q.i))) / 1e-7L;
    if (q.e == 0) A = 1;
    A = std::min(A, 8e-8L) * angle_cond;
    vh::close(ref::norm(n1 - n2), 0, A, tag + ".plane", ctx);
    vh::close(ref::norm(u1 - u2), 0, 2 * A + (q.e > 0 && q.e < 1e-2 ? 0 : 0), tag + ".position-angle", ctx);
    if (q.e > 1e-4) vh::close(ref::norm(p1 - p2), 0, 2 * A / std::min(1.0, q.e * 10), tag + ".periapsis", ctx);
    // angles themselves where all of them are well conditioned
    double si = std::fabs(sin(q.i)), sn = std::fabs(sin(q.nu)), sO = std::fabs(sin(q.Om)), sw = std::fabs(sin(q.w));
    if (q.e > 0.05 && si > 0.05 && sn > 0.05 && sO > 0.05 && sw > 0.05) {
        L T = 4e-13L * k * (1 + q.e) * (1 + q.e) / near1;
        vh::close(ref::wrap((L)o.i - q.i), 0, T, tag + ".i", ctx);
        vh::close(ref::wrap((L)o.Omega - q.Om), 0, T, tag + ".Omega", ctx);
        vh::close(ref::wrap((L)o.omega - q.w), 0, T, tag + ".omega", ctx);
        vh::close(ref::wrap((L)o.nu - q.nu), 0, T, tag + ".nu", ctx);
        vh::count("well-conditioned angle round trips");
    }
    // and back: the returned elements describe the same state
    if (q.e < 1 || std::fabs(1 + q.e * cos(q.nu)) > 0.05) {
        Vec r, v;
        orbit::orbit_to_coord(o, r, v);
        L rn = ref::norm(V::of(dr)), vn = ref::norm(V::of(dv));
        L B = (q.cls == 2 ? 1e-6L * k * (1 + q.e) * 4 / near1 * angle_cond : k * (1 + q.e) * 4 / near1 * (A + 1e-13L));
        vh::close(ref::norm(V::of(r) + V::of(dr)) / rn, 0, B, tag + ".back-pos", ctx);
        vh::close(ref::norm(V::of(v) + V::of(dv)) / vn, 0, B, tag + ".back-vel", ctx);
    }
}

void vh_main() {
    vh::cases("elements", vh::scale(40000, 1000000), [](vh::Rng& g, long idx) {
        Elem q = draw(g, idx);
        if (std::fabs(1 + q.e * cos(q.nu)) < 1e-2) return;
        vh::sample(str(q));
        vh::eval(vh::mix(vh::bits_of(q.e) ^ vh::mix(vh::bits_of(q.p)) ^ vh::bits_of(q.nu)));
        vh::count(vh::cat("class", q.cls));
        Orb o(q.m1, q.m2, q.p, q.e, q.i, q.Om, q.w, q.nu);
        vh::expect(o.m1 == q.m1 && o.m2 == q.m2 && o.p == q.p && o.e == q.e && o.i == q.i && o.Omega == q.Om && o.omega == q.w && o.nu == q.nu, "ctor.fields", str(q));
        vh::expect(o.orbit_type == (q.e < 1 ? orbit::OrbitType::Ellipse : q.e > 1 ? orbit::OrbitType::Hyperbola : orbit::OrbitType::Parabola), "ctor.type", str(q));
        L u = (L)q.m1 + q.m2;
        if (u == 0) return;
        V rr, vv;
        ref::kepler_state(u, q.p, q.e, q.i, q.Om, q.w, q.nu, rr, vv);
        // the library gives the state of the second body relative to the first: minus the orbit's own vector
        rr = -rr; vv = -vv;
        Vec r1, v1;
        orbit::orbit_to_coord(o, r1, v1);
        L ts = 1.2e-14L * (1 + std::fabs(q.Om) / 3);
        state_check(q, r1, v1, rr, vv, ts, "to_coord.ref");
        auto [r2, v2] = orbit::orbit_to_coord<Vec>(o);
        state_check(q, r2, v2, rr, vv, ts, "to_coord.value");
        // physical invariants of the produced state
        {
            L rn = ref::norm(V::of(r1)), v2n = ref::dot(V::of(v1), V::of(v1)), h = ref::norm(ref::cross(V::of(r1), V::of(v1)));
            L En = 0.5L * v2n - u / rn, Ew = -u * (1 - (L)q.e * q.e) / (2 * (L)q.p);
            vh::close(En, Ew, 1e-13L * (0.5L * v2n + u / rn), "state.energy", str(q));
            vh::close(h, sqrtl(u * q.p), 1e-13L * rn * sqrtl(v2n), "state.angmom", str(q));
            L rv = ref::dot(V::of(r1), V::of(v1));
            vh::close(rv, sqrtl(u * q.p) * (L)q.e * sinl(q.nu) / (1 + (L)q.e * cosl(q.nu)), 1e-13L * rn * sqrtl(v2n) + 1e-14L * u, "state.radial", str(q));
        }
        // elements of body 1 relative to body 2
        Vec dr(-r1.x, -r1.y, -r1.z), dv(-v1.x, -v1.y, -v1.z);
        double cond = 1;
        if (q.cls == 3) cond = 1;  // nearly circular: periapsis direction ill-defined, position must still come back
        round_trip(q, dr, dv, [](double a, double b, Vec const& x, Vec const& y) { return orbit::coord_to_orbit(a, b, x, y); }, "elements.value", cond);
        round_trip(q, dr, dv, [](double a, double b, Vec const& x, Vec const& y) { Orb k; orbit::coord_to_orbit(a, b, x, y, k); return k; }, "elements.ref", cond);
        // helper functions
        double ud = q.m1 + q.m2;
        L k = 1 + std::fabs(q.e * sin(q.nu)) / std::fabs(1 + q.e * cos(q.nu));
        L te = 1e-14L * k * (1 + q.e) * (1 + q.e) * 4;
        vh::close(orbit::calc_eccentricity(ud, dr, dv), q.e, te, "calc_eccentricity", str(q));
        Vec rl = orbit::calc_runge_lenz_vector(ud, dr, dv);
        V ew = ref::rotate(V(q.e, 0, 0), q.Om, q.i, q.w);
        vh::close(ref::norm(dif(rl, ew)), 0, te, "calc_runge_lenz_vector", str(q));
        auto [a1, e1] = orbit::calc_a_e(ud, dr, dv);
        auto [a2, ev] = orbit::calc_a_RL_vector(ud, dr, dv);
        auto [a3, e3, L3] = orbit::calc_a_e_L(q.m1, q.m2, dr, dv);
        vh::close(e1, q.e, te, "calc_a_e.e", str(q));
        vh::close(ref::norm(dif(ev, ew)), 0, te, "calc_a_RL.e", str(q));
        vh::close(ref::norm(dif(e3, ew)), 0, te, "calc_a_e_L.e", str(q));
        L mu = (L)q.m1 * q.m2 / u;
        V Lw = ref::cross(V::of(dr), V::of(dv)) * mu;
        L lt = 4e-15L * mu * ref::norm(V::of(dr)) * ref::norm(V::of(dv));
        vh::close(ref::norm(dif(L3, Lw)), 0, lt, "calc_a_e_L.L", str(q));
        if (q.m1 + q.m2 > 0) vh::close(ref::norm(dif(orbit::calc_angular_momentum(q.m1, q.m2, dr, dv), Lw)), 0, lt, "calc_angular_momentum", str(q));
        if (q.cls != 2) {
            L a = (L)q.p / (1 - (L)q.e * q.e);
            // condition: 1/a = 2/r - v^2/u
            L ca = 1 + std::fabs(a) * (2 / ref::norm(V::of(dr)));
            vh::close(orbit::calc_semi_major_axis(ud, dr, dv) / a, 1, 1.2e-14L * ca * k, "calc_semi_major_axis", str(q));
            vh::close(a1 / a, 1, 1.2e-14L * ca * k, "calc_a_e.a", str(q));
            vh::close(a2 / a, 1, 1.2e-14L * ca * k, "calc_a_RL.a", str(q));
            vh::close(a3 / a, 1, 1.2e-14L * ca * k, "calc_a_e_L.a", str(q));
            vh::close(orbit::semi_latus_rectum((double)a, q.e) / q.p, 1, 1e-14L / std::fabs(1 - q.e), "semi_latus_rectum", str(q));
            if (q.e < 1) {
                L T = 2 * ref::PI * sqrtl(a * a * a / u);
                vh::close(orbit::period(o) / T, 1, 1e-14L / (1 - q.e), "period.orbit", str(q));
                vh::close(orbit::period(q.m1, q.m2, (double)a) / T, 1, 4e-15L, "period.masses", str(q));
                orbit::Elliptic el(q.m1, q.m2, (double)a, q.e, q.i, q.Om, q.w, q.nu);
                vh::close(el.p / q.p, 1, 1e-14L / (1 - q.e), "Elliptic.p", str(q));
                vh::expect(el.a == (double)a && el.e == q.e && el.i == q.i && el.Omega == q.Om && el.omega == q.w && el.nu == q.nu && el.m1 == q.m1 && el.m2 == q.m2, "Elliptic.fields", str(q));
            }
        }
    });

    // placing bodies on the orbit and reading it back through particles (pairs and groups)
    vh::cases("particles", vh::scale(4000, 100000), [](vh::Rng& g, long idx) {
        using S = methods::DefaultMethod<>;
        using P = S::Particle;
        Elem q = draw(g, idx);
        if (q.m2 == 0) q.m2 = q.m1;
        if (std::fabs(1 + q.e * cos(q.nu)) < 1e-2 || q.cls == 2) return;
        if (q.m1 > 1e4 * q.m2 || q.m2 > 1e4 * q.m1) q.m2 = q.m1 * g.u(0.1, 10);
        vh::eval(vh::mix(vh::bits_of(q.nu)) ^ idx);
        Orb o(q.m1, q.m2, q.p, q.e, q.i, q.Om, q.w, q.nu);
        L u = (L)q.m1 + q.m2;
        V rr, vv;
        ref::kepler_state(u, q.p, q.e, q.i, q.Om, q.w, q.nu, rr, vv);
        P a(q.m1), b(q.m2);
        orbit::move_particles(o, b);
        state_check(q, Vec(b.pos), Vec(b.vel), -rr, -vv, 1e-14L, "move_particles.one");
        orbit::move_to_COM_frame(a, b);
        state_check(q, Vec(a.pos - b.pos), Vec(a.vel - b.vel), rr, vv, 1e-13L, "move_particles.com");
        double tol = 1e-12 * (1 + q.e) * (1 + q.e) / std::max(1e-3, std::fabs(1 - q.e));
        L k = 1 + std::fabs(q.e * sin(q.nu)) / std::fabs(1 + q.e * cos(q.nu));
        vh::close(orbit::calc_eccentricity(a, b), q.e, tol * k, "particles.e", str(q));
        auto [aa, ee] = orbit::calc_a_e(a, b);
        L sma = (L)q.p / (1 - (L)q.e * q.e);
        vh::close(aa / sma, 1, tol * k * (1 + std::fabs(sma) / ref::norm(rr)), "particles.a", str(q));
        vh::close(ee, q.e, tol * k, "particles.ae.e", str(q));
        vh::close(orbit::calc_semi_major_axis(a, b) / sma, 1, tol * k * (1 + std::fabs(sma) / ref::norm(rr)), "particles.sma", str(q));
        if (q.e < 1) vh::close(orbit::period(a, b) / (2 * ref::PI * sqrtl(sma * sma * sma / u)), 1, 2 * tol * k * (1 + std::fabs(sma) / ref::norm(rr)), "particles.period", str(q));
        // a group moved as one body
        P c(q.m1 * 0.25, 1, 2, 3, 0.1, 0.2, -0.3), d(q.m1 * 0.75, -1, 0.5, 2, -0.2, 0.1, 0.4);
        Vec rel0 = c.pos - d.pos, relv0 = c.vel - d.vel;
        double scale = std::max(norm(rel0), (double)ref::norm(rr)), vscale = std::max<double>(1, ref::norm(vv));
        orbit::move_particles(o, c, d);
        vh::close(ref::norm(V::of(orbit::COM_p(c, d)) + rr), 0, 1e-14L * scale * 4 * k, "group.com-pos", str(q));
        vh::close(ref::norm(V::of(orbit::COM_v(c, d)) + vv), 0, 1e-14L * vscale * 4 * k, "group.com-vel", str(q));
        vh::close(ref::norm(V::of(c.pos - d.pos) - V::of(rel0)), 0, 1e-15L * scale * 4, "group.rigid-pos", str(q));
        vh::close(ref::norm(V::of(c.vel - d.vel) - V::of(relv0)), 0, 1e-15L * vscale * 4, "group.rigid-vel", str(q));
    });

    // hyperbolic encounter orbits given by velocity at infinity, impact parameter and distance
    vh::cases("hyperbolic", vh::scale(10000, 200000), [](vh::Rng& g, long idx) {
        double m1 = g.logu(1e-3, 1e3), m2 = g.logu(1e-3, 1e3), vinf = g.logu(1e-3, 1e2);
        double u = m1 + m2, a = u / (vinf * vinf), b = a * g.logu(1e-2, 30);
        double e = sqrt(1 + b * b / a / a), rp = a * (e - 1);
        double r = rp * (1 + g.logu(1e-6, 1e5));
        double i = acos(g.u(-1, 1)), Om = g.u(-3, 3), w = g.u(-3, 3);
        bool out = g.chance(0.3);
        std::string ctx = vh::cat("m1=", m1, " m2=", m2, " vinf=", vinf, " b=", b, " r=", r, " rp=", rp, " out=", out);
        vh::sample(ctx);
        vh::eval(idx);
        orbit::Hyperbolic h(m1, m2, vinf, b, i, Om, w, r, out ? orbit::Hyper::out : orbit::Hyper::in);
        vh::expect(h.orbit_type == orbit::OrbitType::Hyperbola && h.b == b && h.m1 == m1 && h.m2 == m2 && h.i == i && h.Omega == Om && h.omega == w, "hyperbolic.fields", ctx);
        vh::close(h.e, e, 3e-14L * e, "hyperbolic.e", ctx);
        Vec x, v;
        orbit::orbit_to_coord(h, x, v);
        V X = V::of(x), W = V::of(v);
        L c = 1 + h.e * std::fabs(sin(h.nu)) / std::fabs(1 + h.e * cos(h.nu));
        L cp = std::max<double>(1.0, 1e-7 / std::max(1e-12, r / rp - 1));  // turning point
        vh::close(ref::norm(X) / r, 1, 1e-13L * c, "hyperbolic.r", ctx);
        L v2 = ref::dot(W, W);
        vh::close((v2 - 2 * (L)u / ref::norm(X)) / ((L)vinf * vinf), 1, 1e-13L * (v2 / ((L)vinf * vinf)) * c + 1e-12L, "hyperbolic.vinf", ctx);
        vh::close(ref::norm(ref::cross(X, W)) / ((L)b * vinf), 1, 1e-12L + 1e-14L * ref::norm(X) * ref::norm(W) / ((L)b * vinf), "hyperbolic.b", ctx);
        L rv = ref::dot(X, W);
        vh::expect((out ? rv : -rv) > -1e-6L * ref::norm(X) * sqrtl(v2), "hyperbolic.direction", ctx, " rv=", (double)rv);
        (void)cp;
        // exactly at periapsis: a valid starting distance
        orbit::Hyperbolic hp(m1, m2, vinf, b, i, Om, w, std::max(rp, -(-u / (vinf * vinf)) * (sqrt(1 + b * b / (a * a)) - 1)), orbit::Hyper::in);
        vh::expect(std::isfinite(hp.nu) && std::fabs(hp.nu) < 1e-5, "hyperbolic.at-periapsis", ctx, " nu=", hp.nu);
    });

    // states whose eccentricity vector or line of nodes vanishes exactly
    vh::cases("degenerate", vh::scale(3000, 30000), [](vh::Rng& g, long idx) {
        // unit circular or eccentric orbits, G(m1+m2)=1, exact in binary or Pythagorean
        static const double P[5][2] = {{1, 0}, {0, 1}, {0.6, 0.8}, {0.8, 0.6}, {0, 1}};
        int kind = idx % 4;
        Vec dr, dv;
        double sx = g.sign(), sy = g.sign(), sz = g.sign();
        if (kind == 0) {  // circular in the reference plane, either sense
            auto const* p = P[g.i(0, 4)];
            dr = Vec(p[0] * sx, p[1] * sy, 0);
            dv = Vec(-dr.y, dr.x, 0) * sz;
        } else if (kind == 1) {  // circular and inclined
            auto const* p = P[g.i(0, 4)];
            dr = Vec(sx, 0, 0);
            dv = Vec(0, sy * p[0], sz * p[1]);
            int turn = g.i(0, 2);
            for (int t = 0; t < turn; ++t) dr = Vec(dr.y, dr.z, dr.x), dv = Vec(dv.y, dv.z, dv.x);
        } else if (kind == 2) {  // eccentric in the reference plane
            double th = g.chance(0.5) ? special(g) : g.u(-3.1, 3.1), f = g.u(0.3, 1.3), ps = g.u(0.4, 2.7);
            dr = Vec(cos(th), sin(th), 0) * g.u(0.5, 2);
            dv = Vec(cos(th + ps), sin(th + ps), 0) * f * sz;
        } else {  // eccentric, inclined, at an apsis or a node
            double f = g.u(0.3, 1.3);
            int a = g.i(0, 2), b = (a + g.i(1, 2)) % 3;
            double r[3] = {0, 0, 0}, v[3] = {0, 0, 0};
            r[a] = sx;
            v[b] = sy * f;
            if (g.chance(0.5)) v[3 - a - b] = sz * g.u(0.1, 0.5);
            dr = Vec(r[0], r[1], r[2]);
            dv = Vec(v[0], v[1], v[2]);
        }
        for (int way = 0; way < 2; ++way) {
            Orb o;
            if (way) orbit::coord_to_orbit(0.5, 0.5, dr, dv, o);
            else o = orbit::coord_to_orbit(0.5, 0.5, dr, dv);
            std::string ctx = vh::cat("dr=", dr.x, ",", dr.y, ",", dr.z, " dv=", dv.x, ",", dv.y, ",", dv.z, " got p=", o.p, " e=", o.e, " i=", o.i, " Om=", o.Omega, " w=", o.omega, " nu=", o.nu);
            vh::eval(vh::mix(idx) + way);
            if (o.e == 0) vh::count(kind == 0 ? "exactly circular planar" : "exactly circular inclined");
            if (dr.z == 0 && dv.z == 0) vh::count("exactly planar");
            if (!vh::expect(std::isfinite(o.p + o.e + o.i + o.Omega + o.omega + o.nu), "degenerate.finite", ctx)) continue;
            Vec r, v;
            orbit::orbit_to_coord(o, r, v);
            L k = 1 + std::fabs(o.e * sin(o.nu)) / std::fabs(1 + o.e * cos(o.nu));
            L tol = 2e-7L * k * (1 + k) / (o.e > 1e-10 ? std::min(1.0, o.e * 10) : 1);
            vh::close(ref::norm(V::of(r) + V::of(dr)), 0, tol * ref::norm(V::of(dr)), "degenerate.pos", ctx);
            vh::close(ref::norm(V::of(v) + V::of(dv)), 0, tol * ref::norm(V::of(dv)), "degenerate.vel", ctx);
        }
    });

    // isotropic random angles leave everything else alone and stay in range
    vh::cases("shuffle", vh::scale(2000, 20000), [](vh::Rng& g, long idx) {
        double e = g.u(0, 0.95);
        Orb o(1.0, 2.0, 3.0, e, orbit::isotherm, orbit::isotherm, orbit::isotherm, orbit::isotherm);
        vh::eval(idx);
        std::string ctx = vh::cat("i=", o.i, " Om=", o.Omega, " w=", o.omega, " nu=", o.nu);
        vh::expect(o.i >= 0 && o.i <= consts::pi && std::fabs(o.Omega) <= consts::pi && std::fabs(o.omega) <= consts::pi && std::fabs(o.nu) <= consts::pi && o.e == e && o.p == 3.0, "shuffle.range", ctx);
        double i0 = o.i, w0 = o.omega, n0 = o.nu;
        o.shuffle_Omega();
        vh::expect(o.i == i0 && o.omega == w0 && o.nu == n0, "shuffle.isolated", ctx);
    });
}
