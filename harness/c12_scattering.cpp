// C12: scattering set-up produces the requested encounter
#include "vh.hpp"
#include "ref.hpp"
#include "spaceHub.hpp"
using namespace hub;
using ref::L;
using ref::V;
using Vec = Vec3<double>;
using PP = particles::PointParticle<Vec>;
using SP = particles::SizeParticle<Vec>;
static const L EPS = 2.220446049250313e-16L;
static const L G = consts::G;

// what an orbit does once particles are put on it
static void encounter(orbit::KeplerOrbit<double> const& o, L m1, L m2, L vinf, L b, L r, bool inbound, std::string const& form) {
    PP target{(double)m1, Vec(0, 0, 0), Vec(0, 0, 0)}, shot{(double)m2, Vec(0, 0, 0), Vec(0, 0, 0)};
    orbit::move_particles(o, shot);
    V dr = V::of(shot.pos) - V::of(target.pos), dv = V::of(shot.vel) - V::of(target.vel);
    L u = G * (m1 + m2), rr = norm(dr), v2 = dot(dv, dv);
    std::string ctx = vh::cat(form, " m1=", m1, " m2=", m2, " vinf=", vinf, " b=", b, " r=", r);
    L ax = u / (vinf * vinf), ee = sqrtl(1 + b * b / ax / ax), rp = ax * b * b / (ax * ax) / (1 + ee);
    // nu comes from acos((p-r)/(e r)), with p - r and the cosine rounded to eps; the radius is r = p/(1+e cos nu)
    L p = b * b / ax;
    L cn = (p / r - 1) / ee;
    L dcos = 20 * EPS * (1 + (p / r + 1) / ee);                 // error of cos nu
    L dr_rel = (ee * dcos + 10 * EPS) * r / p + 10 * EPS;                  // relative error of r it causes
    if (cn > 1 - 1e-9L) dr_rel += 40 * EPS * r / p * ee;
    if (dr_rel > 1e-4L) { vh::count("ill conditioned starts"); return; }
    vh::close(rr, r, r * dr_rel * 4, "start separation", ctx);
    // the speed at infinity from the energy
    L en = v2 / 2 - u / rr;
    L entol = 40 * EPS * (v2 / 2 + u / rr) + 8 * u / rr * dr_rel + 4 * EPS * v2 * (1 + ee);
    // rounding of e moves the energy by u/p * e * de
    entol += u / p * ee * ee * 8 * EPS;
    if (entol < 1e-3L * vinf * vinf) {
        vh::close(en, vinf * vinf / 2, entol, "speed at infinity", ctx);
        vh::count("speeds at infinity");
    }
    L h = norm(cross(dr, dv));
    vh::close(h, b * vinf, b * vinf * 4 * (20 * EPS + dr_rel), "impact parameter", ctx);
    L vr = dot(dr, dv) / rr;
    L away = r / rp - 1;
    if (away > 1e-6L) {
        vh::expect(inbound ? vr < 0 : vr > 0, "direction", ctx, " radial velocity ", vr);
        vh::count(inbound ? "inbound starts" : "outbound starts");
    } else vh::count("starts at periapsis");
}

void vh_main() {
    vh::cases("hyperbolic", vh::scale(60000, 2000000), [](vh::Rng& g, long i) {
        double m1 = g.logu(1e-6, 1e6), m2 = g.logu(1e-6, 1e6), vinf = g.logu(1e-3, 1e3);
        double ax = consts::G * (m1 + m2) / vinf / vinf;
        double b = ax * g.logu(1e-3, 1e3);
        L e = sqrtl(1 + (L)b / ax * b / ax), rp = (L)b * b / ax / (1 + e);
        double r = (double)rp * (g.chance(0.25) ? 1 + 1e-12 + 20 * (double)EPS / ((double)e - 1) + g.logu(1e-12, 1e-1) : g.logu(1.05, 1e5));
        bool in = i % 2;
        double inc = g.u(0, consts::pi), Om = g.u(-3, 3), w = g.u(-3, 3);
        orbit::Hyperbolic o(m1, m2, vinf, b, inc, Om, w, r, in ? orbit::Hyper::in : orbit::Hyper::out);
        vh::eval(vh::mix(vh::bits_of(b / ax)) ^ i);
        vh::expect(o.b == b, "Hyperbolic.b", o.b, " ", b);
        vh::expect(o.i == inc && o.Omega == Om && o.omega == w, "Hyperbolic orientation", o.i, " ", o.Omega, " ", o.omega);
        vh::expect(o.orbit_type == orbit::OrbitType::Hyperbola, "Hyperbolic type", "");
        vh::expect(in ? o.nu <= 0 : o.nu >= 0, "Hyperbolic nu sign", o.nu);
        encounter(o, m1, m2, vinf, b, r, in, "Hyperbolic");
        // exactly the computed periapsis distance is a legal start
        double pc = (b * vinf) * (b * vinf) / (consts::G * (m1 + m2));
        double rpc = pc / (1 + o.e) * (1 + 4 * (double)EPS * (1 + 1 / (o.e - 1)));
        if (rpc < rp * (1 + 1e-13L)) {
            orbit::Hyperbolic q(m1, m2, vinf, b, inc, Om, w, rpc, orbit::Hyper::in);
            vh::expect(std::fabs(q.nu) < 1e-5, "start at periapsis", "nu=", q.nu);
            vh::count("exact periapsis starts");
        }
    });
    vh::cases("incident", vh::scale(64, 1000), [](vh::Rng& g, long i) {
        double m1 = g.logu(1e-3, 1e3), m2 = g.logu(1e-3, 1e3), vinf = g.logu(1e-2, 1e2);
        double ax = consts::G * (m1 + m2) / vinf / vinf;
        double rp_max = ax * g.logu(1e-2, 1e2);
        double bm = scattering::b_max(m1 + m2, vinf, rp_max);
        double r = rp_max * (1 + g.logu(1e-6, 1e3));
        std::vector<double> bs, ws;
        int N = 2000;
        for (int k = 0; k < N; ++k) {
            auto o = scattering::incident_orbit(m1, m2, vinf, bm, r);
            vh::expect(o.b >= 0 && o.b <= bm * (1 + 1e-15), "impact parameter above the maximum", o.b, " ", bm);
            bs.push_back(o.b); ws.push_back(o.i);
            if (o.b > bm * 1e-3) encounter(o, m1, m2, vinf, o.b, r, true, "incident_orbit");
            vh::eval(vh::mix(vh::bits_of(o.b / bm)));
        }
        L d = ref::ks(bs, [&](double x) { return (L)x / bm * x / bm; });
        vh::maxi("margin:uniform in area", d / ref::ks_limit(N));
        vh::expect(d < ref::ks_limit(N), "uniform in area", "KS ", d, " of ", N, " draws");
        d = ref::ks(ws, [&](double x) { return (L)x / (2 * ref::PI); });
        vh::maxi("margin:uniform around the axis", d / ref::ks_limit(N));
        vh::expect(d < ref::ks_limit(N), "uniform around the axis", "KS ", d);
        vh::count("distribution tests", 2);
        vh::sample(vh::cat("m=", m1, ",", m2, " vinf=", vinf, " b_max=", bm, " KS ", (double)d));
    });
    vh::cases("cluster", vh::scale(600, 20000), [](vh::Rng& g, long i) {
        auto mk = [&](int n, double s) {
            std::vector<SP> v;
            for (int k = 0; k < n; ++k) v.push_back(SP{g.logu(0.1, 10), g.logu(1e-3, 1) * s, Vec(s * g.normal(), s * g.normal(), s * g.normal()), Vec(g.normal(), g.normal(), g.normal())});
            return v;
        };
        auto A = mk(1 + i % 3, g.logu(0.1, 10)), B = mk(1 + (i / 3) % 3, g.logu(0.1, 10));
        auto size = [](std::vector<SP> const& v) { L s = v.size() == 1 ? v[0].radius : 0; for (auto& a : v) for (auto& b : v) s = std::max(s, dist(V::of(a.pos), V::of(b.pos))); return s; };
        auto mass = [](std::vector<SP> const& v) { L s = 0; for (auto& a : v) s += a.mass; return s; };
        L M1 = mass(A), M2 = mass(B), R1 = size(A), R2 = size(B);
        double vinf = g.logu(0.01, 100);
        auto trad = [&](L f) { return std::max(powl(M1 / (f * M2), 1.0L / 3) * R2, powl(M2 / (f * M1), 1.0L / 3) * R1); };
        double fac = g.logu(1e-3, 1);
        L rp = trad(fac), bm = sqrtl(rp * rp + 2 * G * (M1 + M2) * rp / ((L)vinf * vinf));
        vh::eval(vh::mix(vh::bits_of(rp)));
        vh::close(scattering::b_max(A, B, vinf, fac), bm, bm * 1e-13L, "b_max of clusters", "");
        vh::close(scattering::b_max((double)M1, (double)M2, (double)R1, (double)R2, vinf, fac), bm, bm * 1e-13L, "b_max of numbers", "");
        // the orbit with that impact parameter has that periapsis
        {
            double r0 = g.logu(1e-3, 1e3), b0 = scattering::b_max((double)(M1 + M2), vinf, r0);
            L ax = G * (M1 + M2) / ((L)vinf * vinf), q = (L)b0 * b0 / (sqrtl(ax * ax + (L)b0 * b0) + ax);
            vh::close(q, (L)r0, r0 * 1e-13L, "periapsis at b_max", vh::cat("vinf=", vinf));
            orbit::Hyperbolic o((double)M1, (double)M2, vinf, b0, 0.3, 0.1, 0.2, r0 * 10, orbit::Hyper::in);
            vh::close(o.p / (1 + o.e), (L)r0, r0 * 1e-12L, "periapsis of the orbit at b_max", "");
            vh::count("periapsis checks");
        }
        {  // tidal factor that starts outside the closest approach used by the library for its largest impact parameter (0.02)
            double tf = 0.02 * g.logu(1e-4, 0.5);
            auto o = scattering::incident_orbit(A, B, vinf, tf);
            L q = trad(0.02L), bu = sqrtl(q * q + 2 * G * (M1 + M2) * q / ((L)vinf * vinf));
            vh::expect(o.b >= 0 && o.b <= bu * (1 + 1e-12L), "incident_orbit of clusters above b_max", o.b, " ", (double)bu);
            if (o.b > bu * 1e-3L) encounter(o, M1, M2, vinf, o.b, trad(tf), true, "incident_orbit clusters");
            vh::count("cluster incident orbits");
        }
        // critical velocity: total energy of the encounter is zero in the centre-of-mass frame
        double e1 = -g.logu(1e-3, 1e3), e2 = g.chance(0.3) ? 0 : -g.logu(1e-3, 1e3);
        L vc = scattering::critical_vel((double)M1, (double)M2, e1, e2);
        L mu = M1 * M2 / (M1 + M2);
        vh::close(0.5L * mu * vc * vc + e1 + e2, 0.0L, 1e-13L * (fabs(e1) + fabs(e2)), "critical_vel", "");
        {
            auto inner = [&](std::vector<SP> const& v) {
                L e = 0, m = mass(v); V c; for (auto& a : v) c += V::of(a.vel) * (L)a.mass; c = c / m;
                for (size_t k = 0; k < v.size(); ++k) { V w = V::of(v[k].vel) - c; e += 0.5L * v[k].mass * dot(w, w); for (size_t j = k + 1; j < v.size(); ++j) e -= G * v[k].mass * v[j].mass / dist(V::of(v[k].pos), V::of(v[j].pos)); }
                return e;
            };
            // make A a bound pair on a known orbit
            double a = g.logu(0.1, 10);
            std::vector<PP> P2{PP{2.0, Vec(0, 0, 0), Vec(0, 0, 0)}, PP{1.0, Vec(0, 0, 0), Vec(0, 0, 0)}}, P1{PP{g.logu(0.1, 10), Vec(0, 0, 0), Vec(1, 2, 3)}};
            orbit::Elliptic o(2.0, 1.0, a, g.u(0, 0.9), g.u(0, 3), g.u(0, 3), g.u(0, 3), g.u(0, 3));
            orbit::move_particles(o, P2[1]);
            L E = -G * 2.0L * 1.0L / (2 * (L)a), m3 = P1[0].mass, mr = 3 * m3 / (3 + m3);
            L want = sqrtl(-2 * E / mr);
            vh::close(scattering::critical_vel(P2, P1), want, want * 1e-11L, "critical_vel of binary and single", "");
            vh::close(scattering::critical_vel(P1, P2), want, want * 1e-11L, "critical_vel of single and binary", "");
            vh::close(scattering::critical_vel(P2, P2), sqrtl(-4 * E / 1.5L), want * 1e-11L, "critical_vel of two binaries", "");
            // clusters that are not bound in themselves, as long as the sum of the energies is negative
            std::vector<SP> A, B;
            for (auto& q : P2) { SP z{}; z.mass = q.mass; z.pos = q.pos; z.vel = q.vel; A.push_back(z); }
            int nb = (int)g.i(1, 4);
            double hot = g.logu(1e-2, 1) * sqrt(1 / a);
            for (int k = 0; k < nb; ++k) { SP z{}; z.mass = g.logu(0.01, 1); z.pos = Vec(a * g.normal(), a * g.normal(), a * g.normal()); z.vel = Vec(hot * g.normal(), hot * g.normal(), hot * g.normal()); B.push_back(z); }
            L eb = inner(B), ea = inner(A);
            if (ea + eb < -0.01L * (fabsl(ea) + fabsl(eb))) {
                L mb = mass(B), vcm = sqrtl(-2 * (ea + eb) / (3 * mb / (3 + mb)));
                vh::close(scattering::critical_vel(A, B), vcm, vcm * 1e-10L, "critical_vel of binary and group", vh::cat("E ", (double)ea, " ", (double)eb));
                vh::close(scattering::critical_vel(B, A), vcm, vcm * 1e-10L, "critical_vel of group and binary", vh::cat("E ", (double)ea, " ", (double)eb));
                vh::count(eb > 0 ? "groups unbound in themselves" : "groups bound in themselves");
            }
        }
        double me = g.logu(0.1, 10), sg = g.logu(0.01, 10);
        L ah = G * M1 * M2 / ((L)me * sg * sg);
        vh::close(scattering::hard_radius((double)M1, (double)M2, me, sg), ah, ah * 1e-14L, "hard_radius", "");
    });
}
