// C16: gas drag follows its model, opposes the relative motion, and conserves momentum.
#include "spaceHub.hpp"
#include "interaction/alpha-disk.hpp"
#include "interaction/disk-capture-star.hpp"
#include "interaction/magneto-disk.hpp"
#include "interaction/static-gas-drag.hpp"
#include "vh.hpp"
#include "ref.hpp"
#include "magneto_table.hpp"
double hub::force::AlphaDisk::Q = 1;
double hub::force::AlphaDisk::alpha = 0.1;
double hub::force::AlphaDisk::lambda = 1;
int hub::force::AlphaDisk::force = 0;
using namespace hub;
using ref::L;
using ref::V;
static const L EPS = 0x1p-53L;
using Ty = Types<double, Vec3>;
using Vec = Ty::Vector;
using SP = particles::SizeParticle<Vec>;

struct B { L m, R; V r, v; };

// ---- models
static L I_ostriker_sub(L M) { return (atanhl(M) - M) / (M * M); }
static L I_ostriker_sup(L M, L lnL) { return (0.5L * log1pl(-1 / (M * M)) + lnL) / (M * M); }
static L alpha_I(L M) {
    const L lnL = 3, e = expl(-2 * lnL / 3), a = 1 - e, b = 1 + e;
    if (M > b) return I_ostriker_sup(M, lnL);
    if (M < 0.1L) return M / 3;
    if (M < a) return I_ostriker_sub(M);
    // cubic Hermite bridge, slopes by the analytic derivative
    L y1 = I_ostriker_sub(a), y2 = I_ostriker_sup(b, lnL);
    L d1 = (1 / (1 - a * a) - 1) / (a * a) - 2 * y1 / a, d2 = 1 / (b * (b * b - 1)) / (b * b) - 2 * y2 / b;
    L w = b - a, t = (M - a) / w;
    L h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
    return h00 * y1 + h10 * w * d1 + h01 * y2 + h11 * w * d2;
}
static L interp(L x, std::vector<double> const& xs, std::vector<double> const& ys) {
    if (x <= xs.front()) return ys.front();
    if (x >= xs.back()) return ys.back();
    size_t i = std::upper_bound(xs.begin(), xs.end(), (double)x) - xs.begin();
    if (i > xs.size() - 1) i = xs.size() - 1;
    return ys[i - 1] + (x - xs[i - 1]) * ((L)ys[i] - ys[i - 1]) / ((L)xs[i] - xs[i - 1]);
}
struct Local { L rho, cs, H, mach; V vrel; L I, f_df, f_ae, amp; };  // amp: amplification of rounding
static Local alpha_local(B const& c, B const& s) {
    using A = force::AlphaDisk;
    V d = s.r - c.r;
    L R = sqrtl(d.x * d.x + d.y * d.y), M = c.m;
    L mdot = (L)A::lambda * 0.22L * (M / 1e7L) / (2 * ref::PI), Om = sqrtl(M / (R * R * R));
    L H = cbrtl((L)A::Q / 2 / (L)A::alpha * mdot / M / Om) * R;
    Local o;
    o.H = H;
    o.rho = M / (2 * (L)A::Q * ref::PI * R * R * R) * expl(-d.z * d.z / (2 * H * H)) * 1000;
    L vk = sqrtl(M / R);
    o.vrel = s.v - c.v - V(-vk * d.y / R, vk * d.x / R, 0);
    o.cs = Om * H;
    L u = ref::norm(o.vrel);
    o.mach = u / o.cs;
    o.I = alpha_I(o.mach);
    o.f_df = 4 * ref::PI * s.m * s.m / (o.cs * o.cs) * o.rho * o.I;
    o.f_ae = 4 * ref::PI * s.R * s.R * o.rho * u * u;
    L px = (ref::norm(s.r) + ref::norm(c.r)) / R;
    o.amp = 20 * (1 + d.z * d.z / (H * H)) * px + 10 * px * (ref::norm(s.v) + ref::norm(c.v) + vk) / u;
    return o;
}
static Local magneto_local(B const& c, B const& s) {
    V d = s.r - c.r;
    L R = sqrtl(d.x * d.x + d.y * d.y), lg = log10l(R / (L)unit::cm), r = ref::norm(d);
    Local o;
    o.rho = powl(10, interp(lg, magneto::lgr, magneto::lgrho)) / 5.893333333333333e-07L;
    o.H = powl(10, interp(lg, magneto::lgr, magneto::lgH)) / 1.5e13L;
    L vg = interp(lg, magneto::lgr, magneto::v) * 3.357318203286629e-07L;
    o.vrel = s.v - c.v - V(-vg * d.y / R, vg * d.x / R, 0);
    o.cs = sqrtl(c.m / (r * r * r)) * o.H;
    L u = ref::norm(o.vrel);
    o.mach = u / o.cs;
    L lm = log10l(o.mach);
    o.I = lm < magneto::lgM.front() ? o.mach / 3 : lm >= magneto::lgM.back() ? 0 : interp(lm, magneto::lgM, magneto::I);
    o.f_df = 4 * ref::PI * s.m * s.m / (o.cs * o.cs) * o.rho * o.I;
    o.f_ae = 4 * ref::PI * s.R * s.R * o.rho * u * u;
    L px = (ref::norm(s.r) + ref::norm(c.r)) / R;
    o.amp = 4000 * px + 200 * px * (ref::norm(s.v) + ref::norm(c.v) + fabsl(vg)) / u;  // table slopes up to 400 per unit of lg R
    return o;
}
static Local capture_local(B const& c, B const& s) {
    V d = s.r - c.r;
    L R = sqrtl(d.x * d.x + d.y * d.y), M = c.m;
    L mdot = 0.22L * (M / 1e7L) / (2 * ref::PI), Om = sqrtl(M / (R * R * R)), H = cbrtl(0.5L * mdot / M / Om) * R;
    Local o;
    o.H = H;
    o.cs = Om * H;
    o.rho = M / (2 * ref::PI * R * R * R) * expl(-d.z * d.z / (2 * H * H));
    L vk = sqrtl(M / R);
    o.vrel = s.v - c.v - V(-vk * d.y / R, vk * d.x / R, 0);
    L u = ref::norm(o.vrel);
    o.mach = u / o.cs;
    o.I = 0;
    o.f_df = 0;
    o.f_ae = ref::PI * s.R * s.R * o.rho * u * u;
    L px = (ref::norm(s.r) + ref::norm(c.r)) / R;
    o.amp = 20 * (1 + d.z * d.z / (H * H)) * px + 10 * px * (ref::norm(s.v) + ref::norm(c.v) + vk) / u;
    return o;
}

// ---- monitored evaluation through any system type
template <class F, template <class, class> class Sys>
static std::vector<V> lib(std::vector<SP> const& ps) {
    using I = force::Interactions<force::NewtonianGrav, F>;
    Sys<particles::SizeParticles<Ty>, I> s(0.0, ps);
    typename decltype(s)::VectorArray a(ps.size());
    for (auto& q : a) q = Vec(1, 2, 3);
    I::eval_extra_acc(s, a);
    std::vector<V> o;
    for (auto& q : a) o.push_back(V::of(q));
    return o;
}
template <class P, class I> using Simple = system::SimpleSystem<P, I>;
template <class P, class I> using Chain_ = system::ChainSystem<P, I>;

enum Model { ALPHA, MAGNETO, CAPTURE };
static const char* model_name[] = {"alpha disk", "magnetised disk", "disk capture"};
static void judge(Model md, std::vector<SP> const& ps, std::vector<V> const& a, const char* form) {
    std::vector<B> b;
    for (auto& q : ps) b.push_back({q.mass, q.radius, V::of(q.pos), V::of(q.vel)});
    V react, net;
    L tol0 = 0, mnet = 0;
    for (size_t i = 1; i < b.size(); ++i) {
        Local o = md == ALPHA ? alpha_local(b[0], b[i]) : md == MAGNETO ? magneto_local(b[0], b[i]) : capture_local(b[0], b[i]);
        L u = ref::norm(o.vrel);
        int mode = md == ALPHA ? force::AlphaDisk::force : 0;
        L f = mode == 1 ? o.f_df : mode == -1 ? o.f_ae : o.f_df + o.f_ae;
        V want;
        if (u > 0) want = o.vrel * (-f / u / b[i].m);
        // the regime boundary itself may fall on either side by rounding: allow the step of the low-Mach expansion and the table cut there
        L edge = 0;
        auto near = [&](L x) { return fabsl(o.mach / x - 1) < 64 * EPS * o.amp; };
        if (md != CAPTURE && mode != -1 && near(0.1L)) edge = 0.0075L * o.f_df;
        if (md == MAGNETO && near(100)) edge = 4 * ref::PI * b[i].m * b[i].m / (o.cs * o.cs) * o.rho * 2.1e-4L;
        L tol = ((o.f_df + o.f_ae) * 16 * EPS * o.amp + edge) / b[i].m + 1e-300L;
        if (u == 0) tol = 1e-300L;
        L d = ref::norm(a[i] - want);
        vh::maxi(vh::cat("margin:", model_name[md], " force"), (double)(d / tol));
        vh::expect(d <= tol, vh::cat(model_name[md], " force"), form, " mode ", mode, " body ", i, " of ", b.size(), " Mach ", o.mach, " off by ", d, " allowed ", tol, " of ", ref::norm(want));
        if (u > 0 && f > 1e-290L) {
            L c = ref::dot(a[i], o.vrel) / (ref::norm(a[i]) * u);
            vh::expect(c < -1 + 1e-9L + 1e3L * EPS * o.amp, vh::cat(model_name[md], " drag opposes the gas"), form, " body ", i, " cosine ", c);
        }
        react += want * b[i].m;
        net += a[i] * b[i].m;
        tol0 += tol * b[i].m;
        mnet += ref::norm(a[i]) * b[i].m;
        const char* rg = o.mach < 0.1L ? "below 0.1" : o.mach < 0.8646647L ? "subsonic" : o.mach <= 1.1353353L ? "transonic" : o.mach < 100 ? "supersonic" : "beyond 100";
        vh::count(vh::cat(model_name[md], ": ", rg));
    }
    net += a[0] * b[0].m;
    L d = ref::norm(net), tol = 64 * EPS * b.size() * mnet + 1e-290L;
    vh::maxi("margin:momentum", (double)(d / tol));
    vh::expect(d <= tol, vh::cat(model_name[md], " momentum"), form, " net force ", d, " allowed ", tol, " N=", b.size());
    vh::count(vh::cat(model_name[md], " systems"));
}
template <class F>
static void run(Model md, std::vector<SP> const& ps) {
    judge(md, ps, lib<F, Simple>(ps), "cartesian");
    if (ps.size() >= 2) judge(md, ps, lib<F, Chain_>(ps), "chain");
}
// a body at R with the given Mach number relative to the gas
static SP place(Model md, SP const& c, double R, double phi, double zH, double mach, vh::Rng& rng, double m, double rad) {
    SP p(m, rad, Vec(c.pos.x + R * std::cos(phi), c.pos.y + R * std::sin(phi), c.pos.z), Vec(0, 0, 0));
    B bc{c.mass, c.radius, V::of(c.pos), V::of(c.vel)};
    auto local = [&] {
        B bs{p.mass, p.radius, V::of(p.pos), V::of(p.vel)};
        return md == ALPHA ? alpha_local(bc, bs) : md == MAGNETO ? magneto_local(bc, bs) : capture_local(bc, bs);
    };
    p.pos.z += zH * (double)local().H;
    auto o = local();
    V gas = -o.vrel;  // p at rest
    double a = rng.u(0, 2 * M_PI), ct = rng.u(-1, 1), st = std::sqrt(1 - ct * ct);
    V n(st * std::cos(a), st * std::sin(a), ct);
    V v = gas + n * (mach * o.cs);
    p.vel = Vec((double)v.x, (double)v.y, (double)v.z);
    return p;
}
static void random_system(Model md, vh::Rng& rng) {
    int n = (int)rng.i(1, 6);
    force::AlphaDisk::Q = rng.logu(0.1, 10);
    force::AlphaDisk::alpha = rng.logu(1e-3, 1);
    force::AlphaDisk::lambda = rng.logu(1e-2, 10);
    force::AlphaDisk::force = (int)rng.i(-1, 1) * (rng.chance(0.2) ? 2 : 1);
    if (force::AlphaDisk::force == -2) force::AlphaDisk::force = -1;
    if (force::AlphaDisk::force == 2) force::AlphaDisk::force = 0;
    std::vector<SP> ps;
    double off = rng.chance(0.5) ? 0 : 1;
    ps.push_back(SP(rng.logu(1, 1e8), 0.01, Vec(off * rng.normal(), off * rng.normal(), off * rng.normal()), Vec(off * rng.normal(), off * rng.normal(), off * rng.normal())));
    for (int i = 0; i < n; ++i) {
        double R = md == MAGNETO ? std::pow(10, rng.u(10.7, 13.8)) * (double)unit::cm : rng.logu(1, 1e4);
        double mach = rng.chance(0.1) ? (rng.chance(0.5) ? 0.1 : 1 + rng.sign() * std::exp(-2)) : rng.logu(1e-3, 1e3);
        ps.push_back(place(md, ps[0], R, rng.u(0, 2 * M_PI), rng.chance(0.3) ? 0 : rng.normal() * 1.5, mach, rng, rng.logu(1e-6, 1e2), rng.logu(1e-6, 1)));
    }
    vh::eval(rng.next());
    if (md == ALPHA) run<force::AlphaDisk>(md, ps);
    if (md == MAGNETO) run<force::MagnetoDisk>(md, ps);
    if (md == CAPTURE) run<force::DiskCaptureStar>(md, ps);
}
template <class F>
static L mag(std::vector<SP> const& ps) { return ref::norm(lib<F, Simple>(ps)[1]); }
// continuity: step a parameter through an edge in tiny increments and bound the largest jump by the local slope
template <class F>
static void continuity(Model md, vh::Rng& rng, long idx) {
    force::AlphaDisk::Q = rng.logu(0.3, 3);
    force::AlphaDisk::alpha = rng.logu(1e-2, 1);
    force::AlphaDisk::lambda = rng.logu(0.1, 10);
    force::AlphaDisk::force = md == ALPHA ? 1 : 0;
    SP c(rng.logu(1e3, 1e8), 0.01, Vec(0, 0, 0), Vec(0, 0, 0));
    double R0, mach0 = rng.logu(0.02, 50);
    bool in_mach = idx % 2 == 0;
    const std::vector<double> edges = {0.1, 1 - std::exp(-2), 1.0, 1 + std::exp(-2), 2.0, 0.5};
    double step = 1e-7, jump = 0;
    if (md == MAGNETO) {
        R0 = std::pow(10, magneto::lgr[rng.chance(0.2) ? (rng.chance(0.5) ? 0 : magneto::lgr.size() - 1) : rng.i(0, magneto::lgr.size() - 1)]) * (double)unit::cm;
        if (in_mach) { mach0 = std::pow(10, magneto::lgM[rng.i(0, 198)]); R0 *= rng.u(1.0, 1.02); }
    } else {
        R0 = rng.logu(10, 1e4);
        if (in_mach) mach0 = rng.pick(edges);
    }
    if (md != ALPHA && in_mach && md == CAPTURE) mach0 = rng.logu(0.1, 10);
    if (std::fabs(mach0 - 0.1) < 1e-6) jump = 0.0075;
    double m = rng.logu(1e-3, 1e2), phi = rng.u(0, 2 * M_PI);
    // fixed direction of motion relative to the gas
    uint64_t sub = rng.next();
    L prev = -1, big = 0, smooth = 0;
    int at = 0;
    for (int k = -12; k <= 12; ++k) {
        double q = 1 + k * step;
        vh::Rng r2(sub);
        SP p = place(md, c, in_mach ? R0 : R0 * q, phi, 0.3, in_mach ? mach0 * q : mach0, r2, m, 1e-9);
        std::vector<SP> ps{c, p};
        L f = mag<F>(ps);
        if (prev > 0) {
            L rel = fabsl(f / prev - 1);
            if (rel > big) { smooth = std::max(smooth, big); big = rel; at = k; }
            else smooth = std::max(smooth, rel);
        }
        prev = f;
    }
    // d ln f / d ln x is at most ~ 60 in alpha disks near Mach one, and 500 in the tables
    L lim = (md == MAGNETO ? 2000 : 200) * step + jump;
    vh::maxi(vh::cat("margin:continuity ", model_name[md], in_mach ? " in Mach" : " in R"), (double)(big / lim));
    vh::expect(big <= lim, vh::cat(model_name[md], in_mach ? " continuous in Mach number" : " continuous in radius"), "jump of ", big, " at ", in_mach ? mach0 : R0, " step ", at, " allowed ", lim);
    vh::count(vh::cat("continuity sweeps ", model_name[md]));
    vh::eval(rng.next());
}
static void comoving(Model md, vh::Rng& rng) {
    // a body moving exactly with the gas feels no drag
    for (int k = 0; k < 4; ++k) {
        static const double R2[] = {1, 4, 16, 0.25};
        double R = R2[k];
        SP c(16.0, 0.01, Vec(0, 0, 0), Vec(0, 0, 0));
        SP p(rng.logu(1e-3, 1), 0.001, Vec(R, 0, 0), Vec(0, std::sqrt(16.0 / R), 0));
        if (md == MAGNETO) {
            auto g = force::MagnetoDisk::disk_v(p.pos);
            p.vel = Vec(g.x, g.y, g.z);
        }
        std::vector<SP> ps{c, p};
        auto a = md == ALPHA ? lib<force::AlphaDisk, Simple>(ps) : md == MAGNETO ? lib<force::MagnetoDisk, Simple>(ps) : lib<force::DiskCaptureStar, Simple>(ps);
        vh::expect(ref::norm(a[0]) == 0 && ref::norm(a[1]) == 0, vh::cat(model_name[md], " comoving body"), "R=", R, " a=", a[1].x, " ", a[1].y);
        vh::count("comoving bodies");
    }
    vh::eval(rng.next());
}
// walk the vertical speed through every representable value around a regime boundary
static void boundary(vh::Rng& rng, long idx) {
    force::AlphaDisk::Q = rng.logu(0.1, 10);
    force::AlphaDisk::alpha = rng.logu(1e-3, 1);
    force::AlphaDisk::lambda = rng.logu(1e-2, 10);
    force::AlphaDisk::force = (int)(idx % 2);
    static const double R2[] = {1, 4, 16, 0.25};
    double R = R2[rng.i(0, 3)];
    SP c(16.0, 0.01, Vec(0, 0, 0), Vec(0, 0, 0));
    double m = rng.logu(1e-3, 1);
    Vec d(R, 0, 0);
    auto [Om, H] = force::AlphaDisk::local_Omega_H(d, 16.0);
    double edge = idx % 3 == 0 ? 0.1 : idx % 3 == 1 ? 1 - std::exp(-2) : 1 + std::exp(-2), vz = edge * Om * H;
    for (int k = 0; k < 8; ++k) vz = std::nextafter(vz, 0);
    L lo = -1, hi = -1;
    for (int k = 0; k < 16; ++k, vz = std::nextafter(vz, 1e300)) {
        std::vector<SP> ps{c, SP(m, 1e-6, Vec(R, 0, 0), Vec(0, std::sqrt(16.0 / R), vz))};
        L f = mag<force::AlphaDisk>(ps);
        lo = lo < 0 ? f : std::min(lo, f);
        hi = std::max(hi, f);
        if (vz / (Om * H) == edge) vh::count("exactly on a regime boundary");
        judge(ALPHA, ps, lib<force::AlphaDisk, Simple>(ps), "boundary");
    }
    vh::expect(hi / lo - 1 < (edge == 0.1 ? 0.0075L : 1e-11L), "alpha disk continuous in Mach number", "boundary ", edge, " lowest ", lo, " highest ", hi);
    vh::eval(rng.next());
}
static void static_drag(vh::Rng& rng) {
    using DP = particles::DragParticle<Vec>;
    int n = (int)rng.i(1, 6);
    std::vector<DP> ps;
    for (int i = 0; i < n; ++i) {
        double cs = rng.logu(1e-3, 1e3), u = rng.chance(0.1) ? cs : cs * rng.logu(1e-2, 1e2);
        Vec v(rng.normal(), rng.normal(), rng.normal());
        double l = norm(v);
        v *= u / l;
        if (rng.chance(0.1)) v = Vec(cs, 0, 0);
        if (rng.chance(0.05)) v = Vec(0, 0, 0);
        ps.push_back(DP(rng.logu(1e-3, 1e3), rng.logu(1e-6, 1), cs, Vec(rng.normal(), rng.normal(), rng.normal()), v));
    }
    using I = force::Interactions<force::NewtonianGrav, force::StaticGasDrag>;
    system::SimpleSystem<particles::DragParticles<Ty>, I> s(0.0, ps);
    std::vector<Vec> dummy;
    decltype(s)::VectorArray a(n);
    I::eval_extra_acc(s, a);
    for (int i = 0; i < n; ++i) {
        V v = V::of(ps[i].vel), got = V::of(a[i]);
        L u = ref::norm(v), cs = ps[i].local_cs, c = ps[i].sub_sonic_coef, m = ps[i].mass;
        V sub = v * (-c * m), sup = u > 0 ? v * (-3 * sqrtl(ref::PI / 2) * c * cs * cs * cs * m / (u * u * u)) : V();
        bool edge = fabsl(u / cs - 1) < 8 * EPS;
        L ds = ref::norm(got - sub), dp = ref::norm(got - sup), ts = 32 * EPS * ref::norm(sub), tp = 32 * EPS * ref::norm(sup);
        bool ok = edge ? (ds <= ts || dp <= tp) : u < cs ? ds <= ts : dp <= tp;
        vh::expect(ok, "static gas drag", "u/cs=", u / cs, " got ", got.x, " sub ", sub.x, " sup ", sup.x);
        vh::count(edge ? "static drag at Mach 1" : u < cs ? "static drag subsonic" : "static drag supersonic");
    }
    vh::eval(rng.next());
}
void vh_main() {
    vh::cases("alpha", vh::scale(12000, 400000), [](vh::Rng& r, long) { random_system(ALPHA, r); });
    vh::cases("magneto", vh::scale(12000, 400000), [](vh::Rng& r, long) { random_system(MAGNETO, r); });
    vh::cases("capture", vh::scale(3000, 100000), [](vh::Rng& r, long) { random_system(CAPTURE, r); });
    vh::cases("continuity alpha", vh::scale(3000, 60000), [](vh::Rng& r, long i) { continuity<force::AlphaDisk>(ALPHA, r, i); });
    vh::cases("continuity magneto", vh::scale(4000, 60000), [](vh::Rng& r, long i) { continuity<force::MagnetoDisk>(MAGNETO, r, i); });
    vh::cases("continuity capture", vh::scale(500, 6000), [](vh::Rng& r, long i) { continuity<force::DiskCaptureStar>(CAPTURE, r, i); });
    vh::cases("comoving", vh::scale(60, 600), [](vh::Rng& r, long i) { comoving(Model(i % 3), r); });
    vh::cases("boundary", vh::scale(600, 6000), [](vh::Rng& r, long i) { boundary(r, i); });
    vh::cases("static", vh::scale(3000, 60000), [](vh::Rng& r, long) { static_drag(r); });
}
