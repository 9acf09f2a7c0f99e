// C18 (part 1): error norms and the step controller against their definitions evaluated in wider arithmetic.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using L = __float128;
using vh::cat;
static L qabs(L x) { return x < 0 ? -x : x; }
static L qmax(L a, L b) { return a > b ? a : b; }
static bool fin(L x) { return x == x && x - x == 0; }
template <class S>
struct Num { using W = S; static L get(S x) { return (L)x; } };

// one pair of solutions
template <class T>
struct Data {
    using TS = T;
    using S = typename T::Scalar;
    std::vector<L> y0, y1, y2;
};
template <class S>
static S draw(vh::Rng& r, int mode) {
    // mode 0: order one, 1: twenty decades, 2: with exact zeros, 3: up to 1e+-140
    if (mode == 2 && r.chance(0.3)) return 0;
    double m = mode == 0 ? r.u(0.1, 2) : mode == 3 ? r.logu(1e-140, 1e140) : r.logu(1e-10, 1e10);
    return (S)m * (S)(1 + r.u() * (double)std::numeric_limits<float>::epsilon()) * (S)r.sign();
}
template <class A>
static void set(A& a, size_t i, typename A::value_type v) { a[i] = v; }

template <class S>
static L tolL() { return (L)std::numeric_limits<S>::epsilon() * 64; }

template <class S>
static void agree(S got, L want, L tol, std::string const& key, std::string const& ctx) {
    if (!fin(want)) { vh::expect(!(got < std::numeric_limits<S>::max()), key, "got ", (long double)got, " want overflow ", ctx); return; }
    if (want > (L)std::numeric_limits<S>::max() * (L)0.999) { vh::count("norm overflows"); vh::expect(got > std::numeric_limits<S>::max() * S(0.99), key + " overflow", "got ", (long double)got, ctx); return; }
    L d = qabs((L)got - want), t = tol * want + (L)std::numeric_limits<S>::denorm_min() * 16;
    vh::maxi("margin:" + key, (double)(d / t));
    vh::expect(d <= t, key, "got ", (long double)got, " want ", (long double)want, " ", ctx);
}

// norms over arrays of numbers; St is the stored type of the state (may carry a compensation)
template <class TS, template <class> class Err, class A0, class A1>
static void scalar_norm(const char* name, vh::Rng& r, int kind) {
    using S = typename TS::Scalar;
    size_t n = r.chance(0.1) ? 1 : (size_t)r.i(1, 60);
    int mode = (int)r.i(0, 3);
    S rtol = r.chance(0.1) ? S(0) : (S)r.logu(1e-17, 1e-1), atol = r.chance(0.4) || rtol == 0 ? (S)r.logu(1e-18, 1e2) : S(0);
    Err<TS> e(atol, rtol);
    if (r.chance(0.5)) {
        Err<TS> f(atol * 3 + 1, rtol * 7 + 1);
        f.set_atol(atol), f.set_rtol(rtol);
        e = f;
    }
    vh::expect(e.atol() == atol && e.rtol() == rtol, "tolerances kept", name);
    A0 y0(n);
    A1 y1(n), y2(n);
    double rel = r.logu(1e-14, 1);
    bool one = r.chance(0.3);  // only one component differs
    size_t odd = (size_t)r.i(0, n - 1);
    for (size_t i = 0; i < n; ++i) {
        y0[i] = draw<S>(r, mode);
        y1[i] = r.chance(0.2) ? draw<S>(r, mode) : (S)y0[i] * (S)(1 + r.u(-0.5, 0.5));
        if (r.chance(0.1)) y1[i] = -y1[i];
        y2[i] = (one && i != odd) ? y1[i] : y1[i] * (S)(1 + rel * r.u(-1, 1));
        if (r.chance(0.02)) y2[i] = draw<S>(r, mode);
    }
    L sum = 0, worst = 0, md = 0, ms = 0;
    bool undefined = false;
    for (size_t i = 0; i < n; ++i) {
        L a = qabs((L)(S)y0[i]), b = qabs((L)(S)y1[i]), d = qabs((L)(S)y1[i] - (L)(S)y2[i]);
        // the difference as seen in the working precision
        S ds = (S)y1[i] - (S)y2[i];
        d = qabs((L)ds);
        L sc = qmax(a, b) * (L)rtol + (L)atol;
        if (sc < (L)std::numeric_limits<S>::min() * 1e20) { if (sc != 0 || d != 0) undefined = true; }
        else { L q = d / sc; sum += q * q; worst = qmax(worst, q); if (q > 1e140 && kind == 0) undefined = true; }
        md = qmax(md, d);
        ms = qmax(ms, a * (L)rtol + (L)atol);
    }
    if (undefined || (kind == 2 && ms < (L)std::numeric_limits<S>::min() * 1e20)) { vh::count("left open (scale at the limit of the number type)"); return; }
    S got = e.error(y0, y1, y2);
    std::string ctx = cat(name, " n=", n, " rtol=", (long double)rtol, " atol=", (long double)atol, " mode=", mode);
    L want = kind == 0 ? (L)sqrtl(1) : kind == 1 ? worst : md / ms;
    if (kind == 0) {
        // sqrt in extended precision, refined once
        L m = sum / (L)n;
        L x = 0;
        if (m > 0) {
            int ex = 0;
            L s = m;
            while (s > (L)1e100) s /= (L)1e100 * (L)1e100, ex += 1;
            while (s < (L)1e-100) s *= (L)1e100 * (L)1e100, ex -= 1;
            x = (L)sqrtl((long double)s);
            x = (x + s / x) / 2;
            for (; ex > 0; --ex) x *= (L)1e100;
            for (; ex < 0; ++ex) x /= (L)1e100;
        }
        want = x;
    }
    // squares of tiny ratios underflow in the root mean square
    L tol = tolL<S>() * (kind == 0 ? 4 : 1);
    if (kind == 0 && want < (L)1e-140) { vh::count("rms underflow"); vh::expect(got <= S(1e-139), "rms underflow", ctx); return; }
    agree(got, want, tol, cat("norm ", name), ctx);
    if (r.chance(0.1)) {
        // an overflown solution is not within any tolerance, whichever component it is
        A1 z1 = y1, z2 = y2;
        size_t i = (size_t)r.i(0, n - 1);
        const S inf = std::numeric_limits<S>::infinity(), nan = std::numeric_limits<S>::quiet_NaN();
        int how = (int)r.i(0, 4);
        if (how == 0) z1[i] = nan;
        else if (how == 1) z2[i] = nan;
        else if (how == 2) z1[i] = z2[i] = nan;
        else if (how == 3) z1[i] = z2[i] = inf * (S)r.sign();
        else z1[i] = inf, z2[i] = -inf;
        S bad = e.error(y0, z1, z2);
        vh::expect(!(bad <= S(1)), cat("an overflown solution is not within tolerance ", name), ctx, " component ", i, " way ", how, " got ", (long double)bad);
        // equal solutions have no error, whatever the scale
        Err<TS> none(S(0), rtol);
        A0 o0(n);
        A1 o1(n);
        for (size_t k = 0; k < n; ++k) { o0[k] = r.chance(0.5) ? S(0) : (S)y0[k]; o1[k] = S(0); }
        S zero = none.error(o0, o1, o1);
        vh::expect(zero == 0, cat("equal solutions have no error ", name), ctx, " got ", (long double)zero);
        vh::count("overflown and equal solutions");
    }
    if (one) vh::count("only one component differs");
    vh::count(cat("norms ", name));
    vh::eval(vh::hash_str(cat(ctx, (double)got)), want > 0);
    // permutation and sign symmetries
    if (n > 1) {
        size_t i = (size_t)r.i(0, n - 1), j = (size_t)r.i(0, n - 1);
        std::swap(y0[i], y0[j]), std::swap(y1[i], y1[j]), std::swap(y2[i], y2[j]);
        for (size_t k = 0; k < n; ++k) y0[k] = -(S)y0[k], y1[k] = -(S)y1[k], y2[k] = -(S)y2[k];
        S again = e.error(y0, y1, y2);
        agree(again, (L)got, tol, cat("norm does not depend on order and sign ", name), ctx);
    }
    if constexpr (std::is_same_v<typename A0::value_type, S>) {
        // the two-argument form takes the difference
        if constexpr (!std::is_same_v<Err<TS>, ode::RMS<TS>>) {
            A1 diff(n);
            for (size_t i = 0; i < n; ++i) diff[i] = y2[i] - y1[i];
            L w = 0, d2 = 0, s2 = 0;
            bool und = false;
            for (size_t i = 0; i < n; ++i) {
                L sc = qabs((L)y0[i]) * (L)rtol + (L)atol, d = qabs((L)diff[i]);
                if (sc < (L)std::numeric_limits<S>::min() * 1e20) { if (sc != 0 || d != 0) und = true; }
                else w = qmax(w, d / sc);
                d2 = qmax(d2, d), s2 = qmax(s2, sc);
            }
            if (!und && s2 > (L)std::numeric_limits<S>::min() * 1e20) {
                agree(e.error(y0, diff), kind == 1 ? w : d2 / s2, tol, cat("norm of a difference ", name), ctx);
                vh::count("norms of differences");
            }
        }
    }
}
// arrays of vectors
template <class TS, template <class> class Err>
static void vector_norm(const char* name, vh::Rng& r, int kind) {
    using S = typename TS::Scalar;
    using VA = typename TS::VectorArray;
    using Vec = typename TS::Vector;
    size_t n = (size_t)r.i(1, 20);
    S rtol = (S)r.logu(1e-16, 1e-1), atol = r.chance(0.5) ? (S)r.logu(1e-18, 1) : S(0);
    Err<TS> e(atol, rtol);
    VA y0(n), y1(n), y2(n);
    double rel = r.logu(1e-12, 1);
    int mode = (int)r.i(0, 1);
    auto g = [&] { return Vec(draw<S>(r, mode), draw<S>(r, mode), draw<S>(r, mode)); };
    for (size_t i = 0; i < n; ++i) {
        y0[i] = g();
        y1[i] = y0[i] * (S)(1 + r.u(-0.5, 0.5));
        y2[i] = y1[i];
        y2[i].x *= (S)(1 + rel * r.u(-1, 1)), y2[i].y *= (S)(1 + rel * r.u(-1, 1)), y2[i].z *= (S)(1 + rel * r.u(-1, 1));
    }
    L worst = 0, md = 0, ms = 0, worst2 = 0;
    auto mx = [](Vec const& v) { return qmax(qabs((L)v.x), qmax(qabs((L)v.y), qabs((L)v.z))); };
    for (size_t i = 0; i < n; ++i) {
        Vec dv = y1[i] - y2[i];
        L d = mx(dv), s0 = mx(y0[i]), s1 = mx(y1[i]);
        worst = qmax(worst, d / (qmax(s0, s1) * (L)rtol + (L)atol));
        worst2 = qmax(worst2, d / (s0 * (L)rtol + (L)atol));
        md = qmax(md, d), ms = qmax(ms, s0 * (L)rtol + (L)atol);
    }
    std::string ctx = cat(name, " vectors n=", n, " rtol=", (long double)rtol, " atol=", (long double)atol);
    // (the other combinations of norm, form and arrays of vectors do not compile)
    S got;
    if constexpr (std::is_same_v<Err<TS>, ode::WorstOffender<TS>>) {
        VA diff(n);
        for (size_t i = 0; i < n; ++i) diff[i] = y2[i] - y1[i];
        got = e.error(y0, diff);
        agree(got, worst2, tolL<S>(), cat("norm of vector differences ", name), ctx);
    } else {
        got = e.error(y0, y1, y2);
        agree(got, md / ms, tolL<S>(), cat("norm of vectors ", name), ctx);
    }
    vh::count(cat("vector norms ", name));
    vh::eval(vh::hash_str(cat(ctx, (double)got)));
}

template <class TS>
static void controller(vh::Rng& r, long idx) {
    using S = typename TS::Scalar;
    using Ctl = ode::PIDController<TS>;
    const S eps = std::numeric_limits<S>::epsilon();
    Ctl c;
    S S1 = 0.65, S2 = 0.95, S3 = 0.02, S4 = 4.0, Kp = 0.7, Ki = 0.4;
    bool sg = r.chance(0.7), lim = r.chance(0.7), pid = r.chance(0.5);
    auto do_sg = [&] { S1 = (S)r.u(0.3, 1), S2 = (S)r.u(0.3, 1); if (r.chance(0.2)) S2 = 1; c.set_safe_guards(S1, S2); };
    auto do_lim = [&] { S3 = (S)r.logu(1e-6, 0.9), S4 = (S)r.logu(1, 30); c.set_limiter(S3, S4); };
    if (r.chance(0.5)) { if (sg) do_sg(); if (lim) do_lim(); } else { if (lim) do_lim(); if (sg) do_sg(); }
    if (pid) Kp = (S)r.u(0.1, 1), Ki = (S)r.u(0, 0.5), c.set_PID_coefficients(Kp, Ki, S(0));
    if (r.chance(0.2)) { Ctl d = c; Ctl e2; e2 = d; c = e2; }
    std::string ctx0 = cat("S1=", (long double)S1, " S2=", (long double)S2, " S3=", (long double)S3, " S4=", (long double)S4);
    auto near = [&](S got, long double want, long double rel, std::string const& key, std::string const& ctx) {
        vh::close(got, want, rel * fabsl(want), key, ctx + ctx0);
    };
    const long double E = (long double)eps;
    vh::expect(c.limiter_max() == S4 && fabsl((long double)c.limiter_min() - 1 / (long double)S4) <= 2 * E / S4, "general limits", ctx0);
    S prev_err = -1, prev_ratio[50] = {};
    // errors in increasing order, so that monotony can be followed
    std::vector<S> errs{S(0), std::numeric_limits<S>::denorm_min(), std::numeric_limits<S>::min()};
    for (int k = 0; k < 25; ++k) errs.push_back((S)r.logu(1e-30, 1e30));
    for (int k = 0; k < 10; ++k) errs.push_back((S)r.logu(0.1, 10));
    for (S x : {S(1), S(1) + eps, S(1) - eps, S2, std::numeric_limits<S>::max(), std::numeric_limits<S>::infinity()}) errs.push_back(x);
    std::sort(errs.begin(), errs.end());
    for (S err : errs) {
        for (size_t o = 1; o < 50; ++o) {
            long double lmax = powl(1 / (long double)S3, 1.0L / o), lmin = powl((long double)S3, 1.0L / o) / S4;
            std::string ctx = cat("order ", o, " error ", (long double)err, " ");
            if (prev_err < 0) {
                near(c.limiter_max(o), lmax, 8 * E * (2 + fabsl(logl(S3)) / o), "growth limit", ctx);
                near(c.limiter_min(o), lmin, 8 * E * (2 + fabsl(logl(S3)) / o), "shrink limit", ctx);
                // the limiter itself
                S x = (S)r.logu(1e-8, 1e8), got = c.limiter(o, x), want = x < c.limiter_min(o) ? c.limiter_min(o) : x > c.limiter_max(o) ? c.limiter_max(o) : x;
                vh::expect(got == want, "limited ratio", ctx, "ratio ", (long double)x, " got ", (long double)got);
                S gx = c.limiter(x), gw = x < c.limiter_min() ? c.limiter_min() : x > c.limiter_max() ? c.limiter_max() : x;
                vh::expect(gx == gw, "limited ratio in general", ctx, (long double)x);
            }
            S raw = c.next(o, err), lim1 = c.next_with_limiter(o, err);
            std::array<S, 1> a1{err};
            S one = c.limiter(o, c.next(o, a1));  // unlimited, the ratio may overflow
            vh::expect(fabsl((L)one - (L)lim1) <= 16 * E * lim1, "array of one error", ctx, "got ", (long double)one, " against ", (long double)lim1);
            vh::expect(lim1 == lim1 && lim1 >= c.limiter_min(o) && lim1 <= c.limiter_max(o) && lim1 - lim1 == 0 && lim1 > 0, "proposed ratio within the limits", ctx, "got ", (long double)lim1);
            vh::expect(!(err > 1) || lim1 <= 1, "never grows when the error is above tolerance", ctx, "got ", (long double)lim1);
            long double goal = (long double)S2 * powl((long double)S1, (long double)o);
            vh::expect(!((long double)err < goal * (1 - 100 * E * o)) || lim1 >= 1 - 4 * eps, "never shrinks when well below tolerance", ctx, "got ", (long double)lim1);
            if (err > 1) vh::count("ratios for errors above tolerance");
            if ((long double)err < goal) vh::count("ratios for errors well below tolerance");
            if (err > 0 && err < std::numeric_limits<S>::infinity() && err >= std::numeric_limits<S>::min() && (long double)S2 / err < std::numeric_limits<S>::max() / 16 && err < std::numeric_limits<S>::max() / 16) {
                long double w = (long double)S1 * powl((long double)S2 / err, 1.0L / o);
                near(raw, w, 8 * E * (2 + fabsl(logl((long double)S2 / err)) / o), "proposed ratio", ctx);
                vh::count("ratios compared");
            }
            if (prev_err >= 0) vh::expect(lim1 <= prev_ratio[o] * (1 + 4 * eps), "ratio falls with the error", ctx, (long double)prev_ratio[o], " then ", (long double)lim1);
            prev_ratio[o] = lim1;
            // proportional and integral terms
            S last = (r.chance(0.1) && err < std::numeric_limits<S>::infinity()) ? err : (S)r.logu(1e-8, 1e8);
            std::array<S, 2> a2{err, last};
            S two = c.next_with_limiter(o, a2);
            vh::expect(two == two && two >= c.limiter_min(o) && two <= c.limiter_max(o), "proposed ratio with history within the limits", ctx, (long double)last);
            if (err > S(1e-200) && err < S(1e200)) {
                long double w = (long double)S1 * powl((long double)S2 / err, (long double)Kp / o) * powl((long double)last / S2, (long double)Ki / o);
                near(c.next(o, a2), w, 16 * E * (2 + (fabsl(logl((long double)S2 / err)) + fabsl(logl((long double)last / S2))) / o), "proposed ratio with history", ctx);
                vh::count("ratios with history compared");
            }
            vh::eval(vh::mix(o * 7919 + (uint64_t)idx) ^ vh::hash_str(cat((long double)err)));
        }
        prev_err = err;
    }
    ode::ConstStepController<TS> k;
    S h = (S)r.logu(1e-9, 1e9);
    vh::expect(k.next(3, h, S(7)) == h && k.next_with_limiter(3, h, std::array<S, 1>{S(2)}) == h, "constant step", "");
}

void vh_main() {
    using D = Types<double, Vec3>;
    using LD = Types<long double, Vec3>;
    using K = Types<double_k, Vec3>;
    auto family = [](const char* name, auto tag, long n) {
        using TS = decltype(tag);
        using SA = typename TS::ScalarArray;
        using StA = typename TS::StateScalarArray;
        vh::cases(cat("norms ", name), n, [&](vh::Rng& r, long) {
            scalar_norm<TS, ode::RMS, StA, SA>("RMS", r, 0);
            scalar_norm<TS, ode::WorstOffender, StA, SA>("worst offender", r, 1);
            scalar_norm<TS, ode::WorstOffender, SA, SA>("worst offender", r, 1);
            scalar_norm<TS, ode::MaxRatioError, SA, SA>("max ratio", r, 2);
            vector_norm<TS, ode::WorstOffender>("worst offender", r, 1);
            vector_norm<TS, ode::MaxRatioError>("max ratio", r, 2);
        });
        vh::cases(cat("controller ", name), n / 200, [&](vh::Rng& r, long i) { controller<TS>(r, i); });
    };
    family("double", D{}, vh::scale(12000, 200000));
    family("long double", LD{}, vh::scale(8000, 100000));
    family("compensated", K{}, vh::scale(8000, 100000));
}
