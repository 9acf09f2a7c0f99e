// C10: anomaly conversions, periods and times to periapsis
#include "vh.hpp"
#include "ref.hpp"
#include "spaceHub.hpp"
using namespace hub;
using ref::L;
using ref::V;
using Vec = Vec3<double>;
using Orb = orbit::KeplerOrbit<double>;
using orbit::OrbitType;
static const L EPS = 2.220446049250313e-16L;
static const double PI = consts::pi;

// allowed difference: what a few ulps of input error do to the exact result, plus a few ulps of the result
template <class F>
static L room(F f, L x, L e, L want, L extra = 0) {
    L dx = 8 * EPS * std::fabs(x) + extra, r = 0;
    for (L s : {-1.0L, 1.0L}) {
        r = std::max(r, std::fabs(f(x + s * dx, e) - want));
        L e2 = e == 1 ? e : e + s * 4 * EPS * (1 + e);
        if (e2 < 0) e2 = 0;
        if ((e < 1) == (e2 < 1) && (e > 1) == (e2 > 1)) r = std::max(r, std::fabs(f(x, e2) - want));
    }
    return 3 * r + 16 * EPS * std::fabs(want) + 1e-300L;
}
static double draw_e(vh::Rng& g, int cls) {
    switch (cls) {
        case 0: return g.chance(0.1) ? 0.0 : g.chance(0.3) ? 1 - g.logu(1e-7, 0.1) : g.u(0, 0.999);
        case 1: return g.chance(0.3) ? 1 + g.logu(1e-6, 0.1) : g.chance(0.2) ? g.logu(2, 1e4) : g.u(1.001, 4);
        default: return 1.0;
    }
}
static const OrbitType TYPES[3] = {OrbitType::Ellipse, OrbitType::Hyperbola, OrbitType::Parabola};

void vh_main() {
    vh::cases("convert", vh::scale(60000, 2000000), [](vh::Rng& g, long idx) {
        int cls = idx % 3;
        double e = draw_e(g, cls);
        vh::expect(orbit::classify_orbit(e) == TYPES[cls], "classify", "e=", e);
        // an eccentric anomaly
        double E;
        if (cls == 0) E = g.chance(0.15) ? g.pick(std::vector<double>{0, PI / 2, -PI / 2, PI, 3.14159, -3.14159, 1e-9, -1e-5}) : g.chance(0.2) ? g.sign() * g.logu(1e-8, 3) : g.u(-PI, PI);
        else if (cls == 1) E = g.chance(0.3) ? g.sign() * g.logu(1e-8, 3) : g.u(-12, 12);
        else E = g.chance(0.3) ? g.sign() * g.logu(1e-8, 3) : g.chance(0.3) ? g.sign() * g.logu(1, 1e4) : g.u(-8, 8);
        std::string ctx = vh::cat("e=", e, " E=", E);
        const char* nm[3] = {"ellipse", "hyperbola", "parabola"};
        std::string t = nm[cls];
        vh::sample(ctx);
        vh::eval(vh::mix(vh::bits_of(e)) ^ vh::bits_of(E));
        vh::count("class " + t);
        auto E2M = [](L x, L e) { return ref::E_to_M(x, e); };
        auto E2T = [](L x, L e) { return ref::E_to_nu(x, e); };
        auto T2E = [](L x, L e) { return ref::nu_to_E(x, e); };
        auto M2E = [](L x, L e) { return ref::solve_kepler(x, e); };
        auto M2T = [](L x, L e) { return ref::E_to_nu(ref::solve_kepler(x, e), e); };
        auto T2M = [](L x, L e) { return ref::E_to_M(ref::nu_to_E(x, e), e); };
        L Mr = E2M(E, e), size = cls == 0 ? std::fabs((L)E) + e * std::fabs(sinl(E)) : cls == 1 ? e * std::fabs(sinhl(E)) + std::fabs((L)E) : std::fabs(Mr);
        double M = orbit::E_anomaly_to_M_anomaly(E, e);
        vh::close(M, Mr, 8 * EPS * size, t + ".E-M", ctx);
        double T = orbit::E_anomaly_to_T_anomaly(E, e);
        L Tr = E2T(E, e);
        vh::close(ref::wrap((L)T - Tr), 0, room(E2T, E, e, Tr), t + ".E-T", ctx);
        vh::expect(std::fabs(T) <= PI + 1e-15 * 4, t + ".T-range", ctx, " T=", T);
        // M -> E, M -> T for this M
        double Ms = (double)Mr;
        double E2 = orbit::M_anomaly_to_E_anomaly(Ms, e);
        L want = M2E(Ms, e);
        L noise = 8 * EPS * size + (std::fabs(Ms) <= EPS ? 1.1L * EPS : 0);  // rounding of the residual, and the documented flat centre
        vh::close(E2, want, room(M2E, Ms, e, want, noise), t + ".M-E", ctx);
        double T2 = orbit::M_anomaly_to_T_anomaly(Ms, e);
        L tw = E2T(want, e);
        vh::close(ref::wrap((L)T2 - tw), 0, room(M2T, Ms, e, tw, noise), t + ".M-T", ctx);
        // Kepler's equation holds for what came back
        L back = E2M(E2, e);
        L slope = cls == 0 ? 1 + (L)e : cls == 1 ? e * coshl(E2) : 1 + (L)E2 * E2;
        vh::close(back, Ms, 3 * noise + 8 * EPS * std::fabs((L)E2) * slope, t + ".kepler", ctx);
        // T -> E, T -> M, for T strictly inside the admissible range
        double lim = cls == 1 ? acos(-1 / e) : PI;
        double nu = cls == 0 ? T : T * (g.chance(0.5) ? 1 : 0.999);
        if (std::fabs(nu) < lim * (1 - 1e-9) || cls == 0) {
            bool sharp = cls == 1 && std::fabs(nu) > lim * (1 - 1e-6);
            if (!sharp) {
                L ew = T2E(nu, e), mw = T2M(nu, e);
                L er = room(T2E, nu, e, ew), mr = room(T2M, nu, e, mw);
                if (std::isfinite((double)er) && std::isfinite((double)mr)) {
                    double Eb = orbit::T_anomaly_to_E_anomaly(nu, e), Mb = orbit::T_anomaly_to_M_anomaly(nu, e);
                    L d = (L)Eb - ew;
                    if (cls == 0) d = ref::wrap(d);
                    vh::close(d, 0, er, t + ".T-E", ctx + vh::cat(" nu=", nu));
                    L dm = (L)Mb - mw;
                    if (cls == 0) dm = ref::wrap(dm);
                    vh::close(dm, 0, mr + 16 * EPS * size, t + ".T-M", ctx + vh::cat(" nu=", nu));
                    vh::count("true anomaly inversions");
                }
            }
        }
    });

    // mean anomalies of any size
    vh::cases("range", vh::scale(20000, 400000), [](vh::Rng& g, long idx) {
        int cls = idx % 3;
        double e = draw_e(g, cls);
        double M = g.sign() * (g.chance(0.3) ? g.logu(1e-15, 1e-6) : cls == 0 ? g.logu(1e-6, 300) : g.logu(1e-6, 1e6));
        vh::eval(vh::mix(vh::bits_of(e)) ^ vh::bits_of(M));
        std::string ctx = vh::cat("e=", e, " M=", M);
        double E = orbit::M_anomaly_to_E_anomaly(M, e);
        L slope = cls == 0 ? 1 + (L)e : cls == 1 ? e * coshl(E) : 1 + (L)E * E;
        L res = (cls == 0 ? (L)E - (L)e * sinl(E) : cls == 1 ? (L)e * sinhl(E) - E : (L)E + (L)E * E * E / 3) - M;
        L size = cls == 0 ? std::fabs((L)E) + e * std::fabs(sinl(E)) : cls == 1 ? e * std::fabs(sinhl(E)) + std::fabs((L)E) : std::fabs((L)M);
        vh::close(res, 0, 32 * EPS * (size + std::fabs((L)M)) + 8 * EPS * std::fabs((L)E) * slope, vh::cat("range.kepler", cls), ctx);
        if (std::fabs(M) < 1e-8) vh::count(vh::cat("mean anomalies below 1e-8, class ", cls));
        if (std::fabs(M) > PI) vh::count(vh::cat("beyond one revolution, class ", cls));
        if (cls && std::fabs(E) > PI) vh::count(vh::cat("beyond pi, class ", cls));
    });

    // times: from this true anomaly the body reaches periapsis after |t|
    vh::cases("time", vh::scale(20000, 300000), [](vh::Rng& g, long idx) {
        int cls = idx % 3;
        double e = cls == 0 ? (g.chance(0.1) ? 0.0 : g.u(0, 0.99)) : cls == 1 ? 1 + g.logu(1e-2, 10) : 1.0;
        double lim = e >= 1 ? acos(-1 / e) * 0.97 : PI;
        double nu = g.chance(0.1) ? 0.0 : g.u(-lim, lim);
        double m1 = g.logu(1e-3, 1e3), m2 = g.logu(1e-3, 1e3), p = g.logu(1e-3, 1e3);
        Orb o(m1, m2, p, e, acos(g.u(-1, 1)), g.u(-3, 3), g.u(-3, 3), nu);
        L u = (L)m1 + m2;
        std::string ctx = vh::cat("e=", e, " nu=", nu, " p=", p, " m=", m1, ",", m2);
        vh::eval(vh::mix(vh::bits_of(e)) ^ vh::bits_of(nu));
        auto tt = [&](L x, L ee) {
            L M = ref::E_to_M(ref::nu_to_E(x, ee), ee);
            if (cls == 2) return 0.5L * sqrtl((L)p * p * p / u) * M;
            L a = std::fabs((L)p / (1 - ee * ee));
            return sqrtl(a * a * a / u) * M;
        };
        L tw = tt(nu, e);
        L tol = room(tt, nu, e, tw) + 64 * EPS * sqrtl((L)p * p * p / u) / powl(std::fabs(1 - (L)e * (e == 1 ? 0 : e)), 1.5L);
        double t = orbit::time_to_periapsis(o);
        vh::close(std::fabs((L)t), std::fabs(tw), tol, vh::cat("time.value", cls), ctx);
        if (std::fabs(nu) > 1e-3) {
            vh::expect((t > 0) == (cls == 0 ? nu > 0 : nu < 0), vh::cat("time.sign", cls), ctx, " t=", t);
        }
        L a = cls == 2 ? (L)p : (L)p / (1 - (L)e * e);
        double Mn = (double)ref::E_to_M(ref::nu_to_E(nu, e), e);
        L k3 = sqrtl(std::fabs(a * a * a) / u) * (cls == 2 ? 0.5L : 1.0L);
        vh::close(orbit::time_to_periapsis(TYPES[cls], (double)u, (double)a, Mn), k3 * Mn, 16 * EPS * std::fabs(k3 * Mn) + 1e-300L, vh::cat("time.M", cls), ctx);
        // two bodies in that state, anywhere, moving anyhow
        using P = methods::DefaultMethod<>::Particle;
        V r, v;
        ref::kepler_state(u, p, e, o.i, o.Omega, o.omega, nu, r, v);
        P A(m1, r.x * (m2 / u), r.y * (m2 / u), r.z * (m2 / u), v.x * (m2 / u), v.y * (m2 / u), v.z * (m2 / u));
        P B(m2, -r.x * (m1 / u), -r.y * (m1 / u), -r.z * (m1 / u), -v.x * (m1 / u), -v.y * (m1 / u), -v.z * (m1 / u));
        double tc = orbit::time_to_periapsis(A, B);
        vh::expect(std::isfinite(tc), vh::cat("time.bodies-finite", cls), ctx, " t=", tc);
        // arc cosine of a computed cosine: half the digits at the apsides, and 1/e; parabola cannot be told from its neighbours
        if (cls != 2 && (e > 0.01 || e == 0)) {
            L tol2 = 0;
            // the error of nu is at most err/sin(nu), and at most sqrt(2 err) at the ends
            L err = 64 * EPS * (1 + e) * (1 + e) / std::max<L>(e, 0.01L) / std::max<L>(1e-2L, std::fabs(1 + e * cosl(nu)));
            L dnu = std::min(err / std::max<L>(std::fabs(sinl(nu)), 1e-30L), sqrtl(2 * err));
            for (L s : {-1.0L, 1.0L}) {
                L x = nu + s * dnu;
                if (cls == 1 && std::fabs(x) >= acosl(-1 / (L)e)) continue;
                tol2 = std::max(tol2, std::fabs(tt(x, e) - tw));
            }
            L de = 16 * EPS * (1 + e) * (1 + e) / std::max<L>(1e-2L, std::fabs(1 + e * cosl(nu)));
            tol2 += 1e3L * de / std::fabs(1 - (L)e) * (std::fabs(tw) + tol2) + 1e3L * de * k3;
            if (e == 0) {
                L per = 2 * ref::PI * k3;
                vh::expect(tc >= 0 && tc <= 0.5001L * per, "time.bodies-circular", ctx, " t=", tc);
            } else if (std::fabs((L)tc) <= 0 && std::fabs(tw) > tol2) {
                vh::viol(vh::cat("time.bodies", cls), ctx);
            } else {
                vh::close(std::fabs((L)tc), std::fabs(tw), tol2 * 3, vh::cat("time.bodies", cls), ctx);
            }
            vh::count("two-body times");
        }
        if (cls == 0) {
            L per = 2 * ref::PI * k3;
            vh::close(orbit::period(o), per, 1e-14L / (1 - e) * per, "period.orbit", ctx);
            vh::close(orbit::period(m1, m2, (double)a), per, 1e-14L * per, "period.a", ctx);
        }
        // the motion itself: after the time to periapsis the bodies are at their closest
        if (cls != 0 || std::fabs(tw) > 0) {
            V rr = r, vv = v;
            L dt = cls == 0 ? -(L)t : (L)t;
            ref::kepler_advance(u, rr, vv, dt);
            L rp = (L)p / (1 + (L)e);
            if (std::isfinite((double)ref::norm(rr)) && e > 0.01)
                vh::close(ref::norm(rr) / rp, 1, 1e-6L / std::fabs(e == 1 ? 1 : 1 - (L)e), vh::cat("time.motion", cls), ctx);
        }
    });
}
