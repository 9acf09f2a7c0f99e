// C14: random generators draw from exactly the named distribution
#include <thread>
#include "vh.hpp"
#include "ref.hpp"
#include "spaceHub.hpp"
using namespace hub;
using ref::L;
static size_t N() { return vh::scale(120000, 1000000); }
static L Phi(L z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }
static L maxwell(L r, L s) { if (r <= 0) return 0; L x = r / s; return erfl(x / sqrtl(2.0L)) - sqrtl(2 / ref::PI) * x * expl(-x * x / 2); }

template <class Draw, class Cdf>
static void dist(std::string const& name, std::string const& par, Draw draw, Cdf cdf, L lo, L hi, L slack = 1e-13L, size_t n = N()) {
    std::vector<double> s(n);
    bool ok = true;
    for (auto& x : s) { x = draw(); ok = ok && x >= lo - slack * fabsl(lo) && x <= hi + slack * fabsl(hi); }
    vh::count("draws", n);
    vh::count("distributions: " + name);
    if (!vh::expect(ok, name + ".support", par, ": a draw lies outside [", (double)lo, ",", (double)hi, "]")) return;
    L lim = ref::ks_limit(n), d = ref::ks(s, cdf);
    vh::maxi("margin:" + name, (double)(d / lim));
    vh::expect(d <= lim, name + ".distribution", par, " KS distance ", (double)d, " limit ", (double)lim, " from ", n, " draws");
    vh::eval(vh::hash_str(name + par));
    for (size_t k = 0; k < n; k += 16) vh::eval(vh::mix(vh::bits_of(cdf(s[k]))));
    // successive draws are unrelated: serial correlation of the probability transforms
    for (int lag = 1; lag <= 2; ++lag) {
        L c = 0;
        for (size_t k = 0; k + lag < n; ++k) c += (cdf(s[k]) - 0.5L) * (cdf(s[k + lag]) - 0.5L) * 12;
        c /= sqrtl(n);
        vh::maxi("margin:serial correlation", (double)(fabsl(c) / 7.5L));
        vh::expect(fabsl(c) < 7.5L, name + ".serial correlation", par, " lag ", lag, " z=", (double)c);
    }
    vh::sample(name + " " + par + " KS " + std::to_string((double)(d / lim)) + " of the limit");
}

void vh_main() {
    vh::cases("uniform", 12, [](vh::Rng& g, long i) {
        double lo = i == 0 ? 0 : g.sign() * g.logu(1e-6, 1e6), hi = i == 0 ? 1 : lo + g.logu(1e-3, 1e6) * (1 + fabs(lo) * 1e-3);
        dist("Uniform", vh::cat(lo, ",", hi), [=] { return random::Uniform(lo, hi); }, [=](double x) { return ((L)x - lo) / ((L)hi - lo); }, lo, hi);
    });
    vh::cases("log", 12, [](vh::Rng& g, long i) {
        double lo = g.logu(1e-20, 1e20), hi = lo * (i % 3 ? g.logu(1.001, 1e3) : g.logu(1e3, 1e20));
        dist("Logarithm", vh::cat(lo, ",", hi), [=] { return random::Logarithm(lo, hi); }, [=](double x) { return logl((L)x / lo) / logl((L)hi / lo); }, lo, hi, 1e-12L);
    });
    vh::cases("power", 52, [](vh::Rng& g, long i) {
        static const std::vector<double> ps{-2.35, -1, 0, 1, 2, -2, -1.5, -0.5, -3, 0.37, -0.999, -1.001, 5, -7};
        double p = i < 28 ? ps[i % 14] : g.u(-4, 4);
        if (fabs(p + 1) < 1e-3 && p != -1) p = -0.9;
        double lo = g.logu(1e-6, 1e6), hi = lo * (i % 2 ? g.logu(1.01, 10) : g.logu(10, 1e6));
        if (i >= 44) {  // hardly different from the logarithmic law, told apart over many decades
            p = -1 + g.sign() * g.logu(2e-3, 3e-2);
            lo = g.logu(1e-20, 1e-10), hi = lo * g.logu(1e14, 1e25);
        }
        L b = (L)p + 1;
        auto cdf = [=](double x) -> L { return p == -1 ? logl((L)x / lo) / logl((L)hi / lo) : (powl((L)x / lo, b) - 1) / (powl((L)hi / lo, b) - 1); };
        L slack = p == -1 ? 1e-12L : 1e-12L / std::min(fabsl(b), 1.0L);
        // the largest values of a steep falling law are resolved only to rounding of the low-end weight
        if (b < 0) slack += 4e-16L * powl((L)hi / lo, -b) / -b;
        if (b > 0) slack += 0;
        if (slack > 1e-3L) { hi = lo * 10; slack = 1e-3L; }
        auto cdf2 = [=](double x) -> L { return p == -1 ? logl((L)x / lo) / logl((L)hi / lo) : (powl((L)x / lo, b) - 1) / (powl((L)hi / lo, b) - 1); };
        (void)cdf;
        L slo = b > 0 ? 4e-16L * powl((L)hi / lo, b) / b : 0;
        dist("PowerLaw", vh::cat("power ", p, " [", lo, ",", hi, "]"), [=] { return random::PowerLaw(p, lo, hi); }, cdf2, slo > 1e-3L ? 0 : lo, hi, std::max(slack, slo));
    });
    vh::cases("normal", 10, [](vh::Rng& g, long i) {
        double m = i == 0 ? 0 : g.sign() * g.logu(1e-3, 1e3), s = i == 0 ? 1 : g.logu(1e-3, 1e3);
        if (i == 0) dist("Normal", "defaults", [] { return random::Normal(); }, [](double x) { return Phi(x); }, -12, 12);
        dist("Normal", vh::cat(m, ",", s), [=] { return random::Normal(m, s); }, [=](double x) { return Phi(((L)x - m) / s); }, m - 12 * s, m + 12 * s, 0);
    });
    vh::cases("truncnormal", 16, [](vh::Rng& g, long i) {
        double m = i < 2 ? 0 : g.sign() * g.logu(1e-3, 1e3), s = i < 2 ? 1 : g.logu(1e-3, 1e3);
        double za = g.u(-3, 2), zb = za + g.u(0.3, 3);
        if (i % 4 == 1) { za = -2; zb = 2; }
        double lo = m + za * s, hi = m + zb * s;
        L A = Phi(((L)lo - m) / s), B = Phi(((L)hi - m) / s);
        auto cdf = [=](double x) { return (Phi(((L)x - m) / s) - A) / (B - A); };
        if (m == 0 && s == 1) dist("TruncatedNormal", vh::cat("defaults ", lo, ",", hi), [=] { return random::TruncatedNormal(lo, hi); }, cdf, lo, hi, 0, N() / 2);
        dist("TruncatedNormal", vh::cat(m, ",", s, " [", lo, ",", hi, "]"), [=] { return random::TruncatedNormal(lo, hi, m, s); }, cdf, lo, hi, 0, N() / 2);
    });
    vh::cases("maxwell", 10, [](vh::Rng& g, long i) {
        double s = i == 0 ? 1 : g.logu(1e-4, 1e4);
        dist("Maxwellian", vh::cat(s), [=] { return random::Maxwellian(s); }, [=](double x) { return maxwell(x, s); }, 0, 14 * s);
    });
    vh::cases("truncmaxwell", 12, [](vh::Rng& g, long i) {
        double s = g.logu(1e-4, 1e4), lo = s * (i % 3 == 0 ? 0 : g.u(0, 2)), hi = lo + s * g.u(0.5, 3);
        L A = maxwell(lo, s), B = maxwell(hi, s);
        dist("TruncatedMaxwellian", vh::cat(s, " [", lo, ",", hi, "]"), [=] { return random::TruncatedMaxwellian(lo, hi, s); }, [=](double x) { return (maxwell(x, s) - A) / (B - A); }, lo, hi, 0, N() / 2);
    });
    vh::cases("normal2", 8, [](vh::Rng& g, long i) {
        double mr = i == 0 ? 0 : g.logu(1e-3, 0.95);
        size_t n = N();
        L lim2 = mr > 0 ? -4 * logl(mr) : 1e9L;
        std::vector<double> keep;
        L A = (1 - (L)mr * mr);
        L xy = 0;
        dist("Normal2.radius", vh::cat(mr), [&] { auto [x, y] = random::Normal2(mr); keep.push_back(atan2(y, x)); xy += (L)x * y; return x * x + y * y; }, [=](double t) { return -expm1l(-(L)t / 2) / A; }, 0, lim2, 1e-12L);
        size_t k = 0;
        dist("Normal2.angle", vh::cat(mr), [&] { return keep[k++]; }, [](double a) { return ((L)a + ref::PI) / (2 * ref::PI); }, -ref::PI, ref::PI);
        if (mr == 0) {
            dist("Normal2.x", "0", [] { return random::Normal2(0).first; }, [](double x) { return Phi(x); }, -12, 12);
            dist("Normal2.y", "0", [] { return random::Normal2(0).second; }, [](double x) { return Phi(x); }, -12, 12);
        }
    });
    vh::cases("parameter", 16, [](vh::Rng& g, long i) {
        double x0 = g.normal() * 100;
        random::Parameter fx(random::Fixed, x0);
        for (int k = 0; k < 5; ++k) vh::expect(fx.draw() == x0, "Parameter.Fixed", "");
        vh::expect(random::Fixed(x0) == x0, "Fixed", "");
        double m = g.sign() * g.logu(1e-2, 1e2), s = g.logu(1e-2, 1e2);
        double za = g.u(-2, 0.5), zb = za + g.u(0.3, 2);
        double lo = m + za * s, hi = m + zb * s;
        random::Parameter p(random::Normal, m, s);
        bool onlymin = i % 4 == 1, onlymax = i % 4 == 2, none = i % 4 == 3;
        if (onlymin) p.set_min(lo);
        else if (onlymax) p.set_max(hi);
        else if (!none) p.set_boundary(lo, hi);
        L A = onlymax || none ? 0 : Phi(((L)lo - m) / s), B = onlymin || none ? 1 : Phi(((L)hi - m) / s);
        dist("Parameter.Normal", vh::cat(m, ",", s, " kind ", i % 4), [&] { return p.draw(); }, [=](double x) { return (Phi(((L)x - m) / s) - A) / (B - A); },
             onlymax || none ? m - 14 * s : lo, onlymin || none ? m + 14 * s : hi, 0, N() / 2);
        double a = -g.logu(0.1, 10), b = g.logu(0.1, 10), c = a + 0.3 * (b - a);
        random::Parameter q(random::Uniform, a, b);
        q.set_min(c);
        dist("Parameter.Uniform", vh::cat(a, ",", b), [&] { return q.draw(); }, [=](double x) { return ((L)x - c) / ((L)b - c); }, c, b, 0, N() / 2);
        const random::Parameter cq = q;  // copies keep the bounds
        dist("Parameter.copy", vh::cat(a, ",", b), [&] { return cq.draw(); }, [=](double x) { return ((L)x - c) / ((L)b - c); }, c, b, 0, N() / 4);
        double ml = g.logu(0.1, 1);
        random::Parameter im(random::PowerLaw, -2.35, ml, ml * 100);
        im.set_max(ml * 10);
        dist("Parameter.PowerLaw", vh::cat(ml), [&] { return im.draw(); }, [=](double x) { return (powl((L)x / ml, -1.35L) - 1) / (powl(10.0L, -1.35L) - 1); }, ml, ml * 10, 1e-12L, N() / 4);
    });
    vh::cases("angles", 8, [](vh::Rng& g, long i) {
        using Orb = orbit::KeplerOrbit<double>;
        double e = i == 0 ? 0 : g.u(0, 0.95);
        const L P = ref::PI;
        auto ang = [&](double x) { return ((L)x + P) / (2 * P); };
        auto inc = [&](double x) { return (1 - cosl((L)x)) / 2; };
        auto man = [&](double nu) { return (ref::E_to_M(ref::nu_to_E(nu, e), e) + P) / (2 * P); };
        size_t n = N() / 8;
        std::vector<Orb> os;
        for (size_t k = 0; k < n; ++k) os.push_back(Orb(1.0, 1.0, 1.0, e, orbit::isotherm, orbit::isotherm, orbit::isotherm, orbit::isotherm));
        size_t k = 0;
        auto each = [&](const char* nm, auto get, auto cdf, L lo, L hi) { k = 0; dist(nm, vh::cat("e=", e), [&] { return (double)get(os[k++]); }, cdf, lo, hi, 1e-14L, n); };
        each("isotherm.inclination", [](Orb& o) { return o.i; }, inc, 0, P);
        each("isotherm.Omega", [](Orb& o) { return o.Omega; }, ang, -P, P);
        each("isotherm.omega", [](Orb& o) { return o.omega; }, ang, -P, P);
        each("isotherm.nu", [](Orb& o) { return o.nu; }, man, -P, P);
        for (auto& o : os) { o.shuffle_i(); o.shuffle_Omega(); o.shuffle_omega(); o.shuffle_nu(); }
        each("shuffle.inclination", [](Orb& o) { return o.i; }, inc, 0, P);
        each("shuffle.Omega", [](Orb& o) { return o.Omega; }, ang, -P, P);
        each("shuffle.omega", [](Orb& o) { return o.omega; }, ang, -P, P);
        each("shuffle.nu", [](Orb& o) { return o.nu; }, man, -P, P);
        // different angles of one orbit are unrelated
        L c1 = 0, c2 = 0, c3 = 0;
        for (auto& o : os) { c1 += 12 * (ang(o.Omega) - 0.5L) * (ang(o.omega) - 0.5L); c2 += 12 * (inc(o.i) - 0.5L) * (ang(o.Omega) - 0.5L); c3 += 12 * (man(o.nu) - 0.5L) * (ang(o.omega) - 0.5L); }
        for (L c : {c1, c2, c3}) vh::expect(fabsl(c / sqrtl(n)) < 7.5L, "angles.correlated", (double)(c / sqrtl(n)));
        // the angles that are given stay given
        double w = g.u(-3, 3);
        orbit::Elliptic el(1.0, 2.0, 3.0, e, orbit::isotherm, w, orbit::isotherm, 0.5);
        vh::expect(el.Omega == w && el.nu == 0.5 && el.i >= 0 && el.i <= consts::pi, "angles.given", "");
    });
    vh::cases("threads", 8, [](vh::Rng& g, long i) {
        const int T = 6;
        const size_t n = 20000;
        std::vector<std::vector<double>> u(T), m(T), w(T);
        std::vector<std::vector<std::vector<double>>> x(8, std::vector<std::vector<double>>(T));
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] { for (size_t k = 0; k < n; ++k) { u[t].push_back(random::Uniform(0, 1)); m[t].push_back(random::Normal(0, 1)); w[t].push_back(random::PowerLaw(1, 1, 2)); }
                for (size_t k = 0; k < 2000; ++k) {
                    x[0][t].push_back(random::Logarithm(1, 2)); x[1][t].push_back(random::TruncatedNormal(-1, 2)); x[2][t].push_back(random::Maxwellian(1));
                    auto [p, q] = random::Normal2(0.1);
                    x[3][t].push_back(p); x[4][t].push_back(q);
                    x[5][t].push_back(random::TruncatedMaxwellian(0.5, 2, 1));
                    orbit::KeplerOrbit<double> o(1.0, 1.0, 1.0, 0.5, orbit::isotherm, orbit::isotherm, orbit::isotherm, orbit::isotherm);
                    x[6][t].push_back(o.i); x[7][t].push_back(o.nu);
                } });
        for (auto& t : th) t.join();
        std::vector<double> all;
        for (int a = 0; a < T; ++a) {
            all.insert(all.end(), u[a].begin(), u[a].end());
            for (int b = a + 1; b < T; ++b) {
                size_t same = 0, same2 = 0, same3 = 0;
                L c = 0;
                for (size_t k = 0; k < n; ++k) { same += u[a][k] == u[b][k]; same2 += m[a][k] == m[b][k]; same3 += w[a][k] == w[b][k]; c += 12 * (u[a][k] - 0.5L) * (u[b][k] - 0.5L); }
                vh::expect(same < 3 && same2 < 3 && same3 < 3, "threads.same stream", same, " ", same2, " ", same3, " equal draws of ", n);
                for (size_t f = 0; f < x.size(); ++f) {
                    size_t eq = 0;
                    for (size_t k = 0; k < x[f][a].size(); ++k) eq += x[f][a][k] == x[f][b][k];
                    vh::expect(eq < 3, "threads.same stream", "family ", f, ": ", eq, " equal draws of ", x[f][a].size());
                }
                vh::expect(fabsl(c / sqrtl(n)) < 7.5L, "threads.correlated", (double)(c / sqrtl(n)));
                vh::count("thread pairs compared");
            }
        }
        // the streams do not overlap at another offset either
        std::sort(all.begin(), all.end());
        size_t dup = 0;
        for (size_t k = 1; k < all.size(); ++k) dup += all[k] == all[k - 1];
        vh::expect(dup < 5, "threads.shared values", dup, " repeated values among ", all.size());
        L d = ref::ks(all, [](double x) { return (L)x; });
        vh::expect(d < ref::ks_limit(all.size()), "threads.distribution", (double)d);
        vh::eval(vh::mix(i * 77 + 1)); vh::count("draws", 3 * T * n + 16000 * T);
    });
}
