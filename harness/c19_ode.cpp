// C19: the Bulirsch-Stoer solver used directly on systems of ordinary differential equations assembled at random from blocks
// with known flow; every accepted step is judged against the exact flow, every call of the right-hand side is checked.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using L = long double;
using vh::cat;
using Vec = std::vector<L>;

struct Block {
    std::string name;
    size_t dim;
    std::function<void(L const* y, L* dy, L t)> f;
    std::function<bool(L const* y0, L t0, L t1, L* out)> flow;  // exact
    std::function<void(vh::Rng&, L* y)> init;
    bool crosses = false;  // components may pass through zero
    L rate = 1;            // inverse time scale
};
static bool numeric_flow(Block const& b, L const* y0, L t0, L t1, L* out) {
    ref::State y(y0, y0 + b.dim);
    ref::Rhs rhs = [&](L t, ref::State const& s, ref::State& d) { d.resize(b.dim); b.f(s.data(), d.data(), t); };
    L h = (t1 - t0) / 4;
    ref::gbs(rhs, y, t0, t1, h, 1e-18L);
    for (size_t i = 0; i < b.dim; ++i) out[i] = y[i];
    return true;
}
static Block make_block(vh::Rng& r, int kind) {
    Block b;
    L w = r.logu(0.05, 20);
    b.rate = w;
    switch (kind) {
        case 0: {  // growth and decay
            L k = w * r.sign();
            b = {"exponential", 1, [=](L const* y, L* d, L) { d[0] = k * y[0]; }, [=](L const* y, L t0, L t1, L* o) { o[0] = y[0] * expl(k * (t1 - t0)); return true; }, [](vh::Rng& r, L* y) { y[0] = r.logu(1e-3, 1e3) * r.sign(); }, false, w};
            break;
        }
        case 1: {  // oscillator, any phase
            b = {"oscillator", 2, [=](L const* y, L* d, L) { d[0] = w * y[1], d[1] = -w * y[0]; },
                 [=](L const* y, L t0, L t1, L* o) { L c = cosl(w * (t1 - t0)), s = sinl(w * (t1 - t0)); o[0] = c * y[0] + s * y[1], o[1] = c * y[1] - s * y[0]; return true; },
                 [](vh::Rng& r, L* y) { L a = r.logu(0.1, 10), p = r.u(0, 6.3); y[0] = a * cosl(p), y[1] = a * sinl(p); }, true, w};
            break;
        }
        case 2: {  // logistic growth
            L K = r.logu(0.1, 10);
            b = {"logistic", 1, [=](L const* y, L* d, L) { d[0] = w * y[0] * (1 - y[0] / K); },
                 [=](L const* y, L t0, L t1, L* o) { o[0] = K / (1 + (K / y[0] - 1) * expl(-w * (t1 - t0))); return true; }, [=](vh::Rng& r, L* y) { y[0] = K * r.u(0.02, 2); }, false, w};
            break;
        }
        case 3: {  // quadrature of a wave: time enters explicitly
            L p = r.u(0, 6.3), a = r.logu(0.1, 10);
            b = {"quadrature", 1, [=](L const*, L* d, L t) { d[0] = a * w * cosl(w * t + p); }, [=](L const* y, L t0, L t1, L* o) { o[0] = y[0] + a * (sinl(w * t1 + p) - sinl(w * t0 + p)); return true; },
                 [=](vh::Rng& r, L* y) { y[0] = a * r.u(-1, 1); }, true, w};
            break;
        }
        case 4: {  // coefficient depending on time
            L p = r.u(0, 6.3), a = r.u(0.2, 3);
            b = {"modulated growth", 1, [=](L const* y, L* d, L t) { d[0] = a * w * cosl(w * t + p) * y[0]; },
                 [=](L const* y, L t0, L t1, L* o) { o[0] = y[0] * expl(a * (sinl(w * t1 + p) - sinl(w * t0 + p))); return true; }, [](vh::Rng& r, L* y) { y[0] = r.logu(1e-2, 1e2); }, false, w * (1 + a)};
            break;
        }
        case 5: {  // polynomial in time
            int deg = (int)r.i(0, 9);
            L a = r.logu(0.1, 10), c = r.u(-1, 1);
            b = {"power of time", 1, [=](L const*, L* d, L t) { d[0] = a * powl(t - c, deg); },
                 [=](L const* y, L t0, L t1, L* o) { o[0] = y[0] + a * (powl(t1 - c, deg + 1) - powl(t0 - c, deg + 1)) / (deg + 1); return true; }, [](vh::Rng& r, L* y) { y[0] = r.u(-5, 5); }, true, 0.2L * (deg + 1)};
            break;
        }
        case 6: {  // damped driven oscillator (resonant or not)
            L g = r.u(0, 0.5) * w, q = r.logu(0.3, 3) * w, a = r.u(0.1, 2) * w * w;
            // particular solution for drive a cos(q t)
            L D = (w * w - q * q) * (w * w - q * q) + 4 * g * g * q * q;
            if (D < 1e-3L * w * w * w * w) { q *= 1.5L, D = (w * w - q * q) * (w * w - q * q) + 4 * g * g * q * q; }
            L A = a * (w * w - q * q) / D, B = a * 2 * g * q / D, wd = sqrtl(w * w - g * g);
            b = {"driven oscillator", 2, [=](L const* y, L* d, L t) { d[0] = y[1], d[1] = -w * w * y[0] - 2 * g * y[1] + a * cosl(q * t); },
                 [=](L const* y, L t0, L t1, L* o) {
                     auto xp = [&](L t) { return A * cosl(q * t) + B * sinl(q * t); };
                     auto vp = [&](L t) { return -A * q * sinl(q * t) + B * q * cosl(q * t); };
                     L x = y[0] - xp(t0), v = y[1] - vp(t0), dt = t1 - t0, e = expl(-g * dt), c = cosl(wd * dt), s = sinl(wd * dt);
                     o[0] = e * (x * (c + g / wd * s) + v / wd * s) + xp(t1);
                     o[1] = e * (v * (c - g / wd * s) - x * w * w / wd * s) + vp(t1);
                     return true;
                 },
                 [=](vh::Rng& r, L* y) { y[0] = r.u(-2, 2), y[1] = r.u(-2, 2) * w; }, true, std::max(w, q)};
            break;
        }
        case 7: {  // nothing happens
            b = {"rest", 1, [](L const*, L* d, L) { d[0] = 0; }, [](L const* y, L, L, L* o) { o[0] = y[0]; return true; }, [](vh::Rng& r, L* y) { y[0] = r.chance(0.3) ? 0 : (L)r.u(-5, 5); }, false, 0.1L};
            break;
        }
        case 8: {  // motion in the field of a point mass
            b = {"Kepler", 4, [](L const* y, L* d, L) { L q = y[0] * y[0] + y[1] * y[1], k = -1 / (q * sqrtl(q)); d[0] = y[2], d[1] = y[3], d[2] = k * y[0], d[3] = k * y[1]; },
                 [](L const* y, L t0, L t1, L* o) { ref::V p(y[0], y[1], 0), v(y[2], y[3], 0); ref::kepler_advance(1, p, v, t1 - t0); o[0] = p.x, o[1] = p.y, o[2] = v.x, o[3] = v.y; return true; },
                 [](vh::Rng& r, L* y) { L e = r.u(0, 0.7), a = r.u(0.5, 3), nu = r.u(0, 6.3), w = r.u(0, 6.3); ref::V p, v; ref::kepler_state(1, a * (1 - e * e), e, 0, 0, w, nu, p, v); y[0] = p.x, y[1] = p.y, y[2] = v.x, y[3] = v.y; }, true, 10};
            break;
        }
        case 9: {  // predator and prey
            L k = r.u(0.5, 2);
            b = {"predator and prey", 2, [=](L const* y, L* d, L) { d[0] = k * y[0] * (1 - y[1]), d[1] = y[1] * (y[0] - 1); }, nullptr, [](vh::Rng& r, L* y) { y[0] = r.u(0.3, 2.5), y[1] = r.u(0.3, 2.5); }, false, 3};
            break;
        }
        case 10: {  // relaxation oscillation
            L m = r.u(0.1, 3);
            b = {"van der Pol", 2, [=](L const* y, L* d, L) { d[0] = y[1], d[1] = m * (1 - y[0] * y[0]) * y[1] - y[0]; }, nullptr, [](vh::Rng& r, L* y) { y[0] = r.u(-2, 2), y[1] = r.u(-2, 2); }, true, 4 * (1 + m)};
            break;
        }
        case 11: {  // chaotic flow
            b = {"Lorenz", 3, [](L const* y, L* d, L) { d[0] = 10 * (y[1] - y[0]), d[1] = y[0] * (28 - y[2]) - y[1], d[2] = y[0] * y[1] - 8.0L / 3 * y[2]; }, nullptr, [](vh::Rng& r, L* y) { y[0] = r.u(-10, 10), y[1] = r.u(-10, 10), y[2] = r.u(10, 30); }, true, 30};
            break;
        }
        case 13: {  // algebraic decay: trial steps that are too long overflow
            b = {"cubic decay", 1, [=](L const* y, L* d, L) { d[0] = -w * y[0] * y[0] * y[0]; }, [=](L const* y, L t0, L t1, L* o) { L q = 1 + 2 * w * y[0] * y[0] * (t1 - t0); o[0] = y[0] / sqrtl(q); return q > 0; }, [](vh::Rng& r, L* y) { y[0] = r.u(0.5, 3) * r.sign(); }, false, w * 20};
            break;
        }
        case 14: {  // Gompertz growth: trial steps that are too long leave the domain
            L K = r.logu(0.3, 3);
            b = {"Gompertz", 1, [=](L const* y, L* d, L) { d[0] = w * y[0] * logl(K / y[0]); }, [=](L const* y, L t0, L t1, L* o) { o[0] = K * expl(logl(y[0] / K) * expl(-w * (t1 - t0))); return true; }, [=](vh::Rng& r, L* y) { y[0] = K * r.u(0.01, 3); }, false, w * 3};
            break;
        }
        default: {  // approach to a pole
            b = {"pole", 1, [](L const* y, L* d, L) { d[0] = y[0] * y[0]; }, [](L const* y, L t0, L t1, L* o) { L q = 1 - y[0] * (t1 - t0); o[0] = y[0] / q; return q > 0; }, [](vh::Rng& r, L* y) { y[0] = r.u(0.05, 0.5); }, false, 1};
        }
    }
    return b;
}
struct Norm { int kind; };  // 0 worst offender, 1 root mean square, 2 max ratio

template <class T, template <class> class Err, size_t Depth>
void solve(const char* name, int norm, vh::Rng& r, long) {
    using TS = Types<T, Vec3>;
    using Solver = ode::BulirschStoer<integrator::LeapFrogDKD<TS>, Err<TS>, ode::PIDController<TS>, Depth>;
    using A = typename TS::StateScalarArray;
    const L eps = std::numeric_limits<T>::epsilon();
    // the system
    std::vector<Block> bl;
    size_t dim = 0, want = r.chance(0.25) ? 1 : (size_t)r.i(1, 50);
    bool crosses = false, pole = false, one_way = false, numeric = false;
    L rate = 0;
    while (dim < want && bl.size() < 40) {
        int k = (int)r.i(0, r.chance(0.15) ? 12 : 8);
        if (r.chance(0.15)) k = (int)r.i(13, 14);
        if (numeric && k >= 9 && k != 12) continue;
        Block b = make_block(r, k);
        if (dim + b.dim > want && dim > 0) { if (want - dim >= 1 && b.dim > 1) { b = make_block(r, (int)r.pick(std::vector<int>{0, 2, 3, 4, 5, 7})); } }
        crosses = crosses || b.crosses, numeric = numeric || !b.flow;
        pole = pole || b.name == "pole";
        one_way = one_way || b.name == "cubic decay" || b.name == "Gompertz" || b.name == "logistic";
        rate = std::max(rate, b.rate);
        dim += b.dim;
        bl.push_back(b);
    }
    // the components are interleaved in random order
    std::vector<size_t> perm(dim);
    for (size_t i = 0; i < dim; ++i) perm[i] = i;
    for (size_t i = dim; i > 1; --i) std::swap(perm[i - 1], perm[r.i(0, i - 1)]);
    Vec y0(dim);
    {
        size_t o = 0;
        for (auto& b : bl) { Vec q(b.dim); b.init(r, q.data()); for (size_t i = 0; i < b.dim; ++i) y0[perm[o + i]] = (T)q[i]; o += b.dim; }
    }
    L t0 = r.chance(0.3) ? 0 : (L)r.u(-3, 3);
    bool back = !pole && !one_way && r.chance(0.2);
    L rtol = r.logu(std::is_same_v<T, double> ? 1e-12 : 1e-15, 1e-5), atol = 0;
    if (crosses || r.chance(0.4)) atol = rtol * r.logu(1e-3, 1);
    Solver s;
    // a solver that has already solved something else
    bool used = r.chance(0.3);
    if (used) {
        s.set_rtol(T(1e-8)), s.set_atol(T(1e-8));
        A z((size_t)r.i(1, 60));
        for (size_t i = 0; i < z.size(); ++i) z[i] = (T)(1 + i % 5);
        T zt = 3, zh = T(0.1);
        for (int k = 0; k < 3; ++k) zh = s.iterate([](A const& x, A& d, T) { for (size_t i = 0; i < x.size(); ++i) d[i] = -x[i]; }, z, zt, zh);
    }
    s.set_rtol((T)rtol), s.set_atol((T)atol);
    rtol = (T)rtol, atol = (T)atol;
    A data(dim);
    for (size_t i = 0; i < dim; ++i) data[i] = (T)y0[i];
    T time = (T)t0;
    // first step from a thousandth of to ten times the fastest scale
    T h = (T)(r.logu(1e-4, r.chance(0.3) ? 300 : 1) / rate * (back ? -1 : 1));
    const T h_first = h;
    long calls = 0, bad_time = 0, bad_size = 0, foreign = 0;
    T cur_t = time, cur_h = h;
    A const* cur = nullptr;
    A start = data;
    std::string where;
    Vec in(dim), dy(dim);
    bool nonzero_dy = false;
    std::function<void(A const&, A&, T)> f = [&](A const& x, A& d, T t) {
        ++calls;
        if (x.size() != dim || d.size() != dim) { ++bad_size; return; }
        L a = cur_t, b = cur_t + cur_h, lo = std::min(a, b), hi = std::max(a, b), sl = eps * 40 * (fabsl(lo) + fabsl(hi));
        if (!((L)t >= lo - sl && (L)t <= hi + sl)) ++bad_time;
        size_t o = 0;
        // a call at the start of the step belongs to the start state
        if (t == cur_t) for (size_t i = 0; i < dim; ++i) if (!(x[i] == start[i])) { ++foreign; break; }
        for (auto& q : bl) {
            L v[8], w[8];
            for (size_t i = 0; i < q.dim; ++i) v[i] = (L)x[perm[o + i]];
            q.f(v, w, (L)t);
            for (size_t i = 0; i < q.dim; ++i) d[perm[o + i]] = (T)w[i];
            o += q.dim;
        }
    };
    std::string ctx0 = cat(name, " dim ", dim, " rtol ", rtol, " atol ", atol, " t0 ", t0, " first step ", (L)h, used ? " used before" : "", " [");
    for (auto& b : bl) if (ctx0.size() < 160) ctx0 += b.name + ",";
    ctx0 += "]";
    long n = vh::scale(14, 30), rejected = 0;
    L worst = 0;
    for (long k = 0; k < n; ++k) {
        start = data;
        cur_t = time, cur_h = h;
        T next = 0, h_in = h;
        try {
            next = s.iterate(f, data, time, h);
        } catch (vh::Aborted const&) {
            vh::viol("the solver gave up", cat(ctx0, " at t ", (L)time, " step ", (L)h));
            return;
        }
        L dt = (L)time - (L)cur_t;
        std::string ctx = cat(ctx0, " step ", k, " of ", (L)h_in, " took ", dt, " next ", (L)next);
        if (!vh::expect(dt != 0 && (dt > 0) == (h_in > 0), "time advances", ctx)) return;
        vh::expect(fabsl(dt) <= fabsl((L)h_in) * (1 + 1e-9L) + 8 * eps * fabsl((L)time), "accepted step is not longer than asked for", ctx);
        if (fabsl(dt) < 0.999L * fabsl((L)h_in)) ++rejected;
        vh::expect(next == next && next - next == 0 && next != 0 && (next > 0) == (h_in > 0), "next step is usable", ctx);
        L g = (L)next / dt, slop = 8 * eps * fabsl((L)time / dt);
        vh::expect(g <= powl(50, 1 / 3.0L) * (1 + 1e-9L) + slop && g >= powl(0.02L, 1 / 3.0L) / 4 * (1 - 1e-9L) - slop, "next step within the growth limits", ctx);
        vh::expect(data.size() == dim, "dimension", ctx);
        // exact flow over the accepted step
        L wo = 0, ms = 0, md = 0, ss = 0;
        L rnd = 0;
        size_t o = 0;
        L tstep = (L)time;
        bool ok = true;
        std::string which;
        Vec ex(dim), rn(dim), sc(dim);
        for (auto& b : bl) {
            L v[8], w[8], dv[8];
            for (size_t i = 0; i < b.dim; ++i) v[i] = (L)start[perm[o + i]];
            ok = ok && (b.flow ? b.flow(v, (L)cur_t, tstep, w) : numeric_flow(b, v, (L)cur_t, tstep, w));
            b.f(v, dv, (L)cur_t);
            L size = 0, vel = 0;
            for (size_t i = 0; i < b.dim; ++i) size = std::max({size, fabsl(v[i]), fabsl(w[i])}), vel = std::max(vel, fabsl(dv[i]));
            b.f(w, dv, tstep);
            for (size_t i = 0; i < b.dim; ++i) vel = std::max(vel, fabsl(dv[i]));
            for (size_t i = 0; i < b.dim; ++i) {
                size_t p = perm[o + i];
                ex[p] = w[i];
                sc[p] = std::max(fabsl((L)start[p]), fabsl((L)data[p])) * rtol + atol;
                // rounding: of the values, of the clock, of the many evaluations of a long step
                rn[p] = eps * (60 * size + 60 * vel * fabsl(dt) + 8 * vel * (fabsl((L)cur_t) + fabsl(dt)));
                if (b.name == "power of time") rn[p] *= 20;
            }
            o += b.dim;
        }
        if (!ok) { vh::count("left open (beyond a pole)"); return; }
        for (size_t p = 0; p < dim; ++p) {
            L d = fabsl((L)data[p] - ex[p]) - rn[p];
            if (!(d == d)) d = INFINITY;
            d = std::max(0.0L, d);
            if (sc[p] > 0) {
                if (d / sc[p] > wo) wo = d / sc[p], which = cat("component ", p);
                ss += d / sc[p] * (d / sc[p]);
            } else if (d > 0) wo = INFINITY;
            md = std::max(md, d), ms = std::max(ms, sc[p]);
        }
        L e = norm == 0 ? wo : norm == 1 ? sqrtl(ss / dim) : (md > 0 ? md / ms : 0);
        worst = std::max(worst, e);
        if (getenv("DBG") && e > 3) fprintf(stderr, "%Lg e=%Lg %s\n", fabsl(dt) * rate, e, ctx.c_str());
        // the estimate is asymptotic: where a step spans several of the fastest scales it is coarser
        L x = fabsl(dt) * rate, K = x < 1 ? 40 : x < 4 ? 800 : x < 30 ? 10000 : 1e300L;  // beyond, every sampling is aliased
        vh::maxi(cat("margin:step error ", x < 1 ? "short " : x < 4 ? "medium " : "long ", name), (double)(e / K));
        vh::expect(e <= K, "accepted step meets the tolerance", ctx, " error ", e, " tolerances ", which);
        vh::count("steps");
        vh::count(back ? "steps backwards" : "steps forwards");
        if (used) vh::count("steps of a solver used before");
        if (fabsl(dt) * rate > 1) vh::count("steps longer than the fastest scale");
        vh::eval(vh::hash_str(cat(name, (L)time, (L)data[0], dim)), true);
        h = next;
        if (pole && (L)time > t0 + 1.9L) break;
    }
    vh::expect(bad_time == 0, "right-hand side evaluated inside the step", ctx0, bad_time, " of ", calls);
    vh::expect(bad_size == 0, "right-hand side gets arrays of the size of the system", ctx0, bad_size);
    vh::expect(foreign == 0, "right-hand side at the start of a step gets the start state", ctx0, foreign, " of ", calls);
    vh::count("calls of the right-hand side", calls);
    vh::count("systems");
    if (dim > 25) vh::count("systems of more than 25 components");
    if (numeric) vh::count("systems with chaotic or relaxing parts");
    if (rejected) vh::count("systems with rejected steps");
    for (auto& b : bl) vh::count("blocks " + b.name);
    vh::maxi("worst step in tolerances", (double)worst);
    vh::sample(cat(ctx0, " worst step ", worst, " tolerances"));
    (void)h_first;
}
template <class TS> using WO = ode::WorstOffender<TS>;
template <class TS> using RM = ode::RMS<TS>;
template <class TS> using MR = ode::MaxRatioError<TS>;
// a whole integration: the end state does not depend on the first step nor on unrelated components
template <class T>
void whole(const char* name, vh::Rng& r, long) {
    using TS = Types<T, Vec3>;
    using Solver = ode::BulirschStoer<integrator::LeapFrogDKD<TS>, ode::WorstOffender<TS>, ode::PIDController<TS>>;
    using A = typename TS::StateScalarArray;
    int kind = (int)r.pick(std::vector<int>{0, 1, 2, 3, 4, 6, 8});
    Block b = make_block(r, kind);
    Vec y0(b.dim);
    b.init(r, y0.data());
    for (auto& v : y0) v = (T)v;
    L rtol = r.logu(1e-11, 1e-6), span = r.u(1, 6) / b.rate * (kind == 8 ? 10 : 1);
    if (kind == 0) span = std::min(span, 5 / b.rate);
    T t0 = (T)r.u(-2, 2), t1 = (T)((L)t0 + span);
    Vec ex(b.dim);
    b.flow(y0.data(), (L)t0, (L)t1, ex.data());
    L size = 0;
    for (size_t i = 0; i < b.dim; ++i) size = std::max({size, fabsl(ex[i]), fabsl(y0[i])});
    // sensitivity of the end to the start
    L amp = 1;
    for (size_t i = 0; i < b.dim; ++i) {
        Vec q = y0, e(b.dim);
        q[i] += 1e-7L * size;
        b.flow(q.data(), (L)t0, (L)t1, e.data());
        for (size_t j = 0; j < b.dim; ++j) amp = std::max(amp, fabsl(e[j] - ex[j]) / (1e-7L * size));
    }
    for (int trial = 0; trial < 6; ++trial) {
        size_t pad = trial == 0 ? 0 : (size_t)r.i(0, 20);
        Solver s;
        s.set_rtol((T)rtol), s.set_atol((T)(rtol * size * 1e-2L));
        A data(b.dim + pad);
        for (size_t i = 0; i < b.dim; ++i) data[i] = (T)y0[i];
        for (size_t i = 0; i < pad; ++i) data[b.dim + i] = (T)(i % 3);
        auto f = [&](A const& x, A& d, T t) {
            L v[8], w[8];
            for (size_t i = 0; i < b.dim; ++i) v[i] = (L)x[i];
            b.f(v, w, (L)t);
            for (size_t i = 0; i < b.dim; ++i) d[i] = (T)w[i];
            for (size_t i = b.dim; i < x.size(); ++i) d[i] = -x[i] * T(0.01);
        };
        T t = t0, h = (T)(span * r.logu(1e-7, 3));
        T first = h;
        long n = 0;
        try {
            while (t < t1 && n < 20000) {
                if (h > T(1.5L / b.rate)) h = T(1.5L / b.rate);  // the estimate is asymptotic
                if (t + h > t1) h = t1 - t;
                T before = t;
                h = s.iterate(f, data, t, h);
                ++n;
                if (!(t > before)) break;
            }
        } catch (vh::Aborted const&) {
            vh::viol("the solver gave up", cat(name, " ", b.name, " rtol ", rtol, " first ", (L)first));
            return;
        }
        L d = 0;
        for (size_t i = 0; i < b.dim; ++i) d = std::max(d, fabsl((L)data[i] - ex[i]));
        L tol = amp * size * (60 * rtol * sqrtl(n + 4) + 1e-14L * (n + 5));
        std::string ctx = cat(name, " ", b.name, " padding ", pad, " first step ", (L)first, " of ", span, " rtol ", rtol, " steps ", n);
        vh::maxi("margin:end state", (double)(d / tol));
        vh::expect(d <= tol, "end state independent of first step and dimension", ctx, " off by ", d, " allowed ", tol);
        vh::expect(fabsl((L)t - (L)t1) <= 1e-12L * (fabsl((L)t1) + span), "end time reached", ctx);
        L need = 40 + 8 * span * b.rate + 10 * log10l(span / (L)std::min<L>(first, span) + 1) + (pad ? 20 : 0);
        if (std::is_same_v<T, double>) { vh::maxi("margin:steps of a whole integration", (double)(n / (need * 4))); vh::expect(n <= need * 4, "steps of a whole integration", ctx, " expected about ", need); }
        vh::count("whole integrations");
        vh::eval(vh::hash_str(cat(ctx, (L)data[0])));
    }
}
void vh_main() {
    long n = vh::scale(500, 12000);
#if PART == 1
    vh::cases("double", n * 3, [](vh::Rng& r, long i) { solve<double, WO, 7>("double", 0, r, i); });
    vh::cases("long double", n, [](vh::Rng& r, long i) { solve<long double, WO, 7>("long double", 0, r, i); });
#elif PART == 2
    vh::cases("rms", n, [](vh::Rng& r, long i) { solve<double, RM, 7>("rms", 1, r, i); });
    vh::cases("max ratio", n, [](vh::Rng& r, long i) { solve<double, MR, 7>("max ratio", 2, r, i); });
    vh::cases("whole", n, [](vh::Rng& r, long i) { whole<double>("double", r, i); });
#elif PART == 3
    vh::cases("depth 4", n, [](vh::Rng& r, long i) { solve<double, WO, 4>("depth 4", 0, r, i); });
    vh::cases("depth 9", n, [](vh::Rng& r, long i) { solve<double, WO, 9>("depth 9", 0, r, i); });
    vh::cases("depth 12", n, [](vh::Rng& r, long i) { solve<long double, WO, 12>("depth 12", 0, r, i); });
    vh::cases("whole long double", n / 2, [](vh::Rng& r, long i) { whole<long double>("long double", r, i); });
#endif
}
