// C06: sliced callbacks fire exactly when due (reference schedule in lock-step with the wrapped callback).
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using F = force::Interactions<force::NewtonianGrav>;
using callback::LogTimeSlice;
using callback::StepSlice;
using callback::TimeSlice;

struct Fire { L t, step; const void* sys; };
template <bool BOOL>
struct Rec {  // what is wrapped
    std::vector<Fire>* log;
    std::vector<char> const* answers = nullptr;
    template <class Sys>
    auto operator()(Sys& s, typename Sys::Scalar h) -> std::conditional_t<BOOL, bool, void> {
        log->push_back({(L)s.time(), (L)h, (void const*)&s});
        if constexpr (BOOL) return answers->at((log->size() - 1) % answers->size());
    }
};
// ---- reference schedules; must: 1 has to fire, 0 must not fire, -1 either
struct RefTime {
    L start, end, iv, u;
    long fired = 0;
    bool lax = false;  // a gap was longer than the spacing: only the interval and once-per-state remain
    L last = -INFINITY;
    RefTime(L s, L e, long n, L u) : start(s), end(e), iv((e - s) / n), u(u) {}
    int must(L t) {
        L due = start + fired * iv, tol = (fired + 4) * u * (fabsl(start) + fabsl(end));
        if (t < start || t > end) return 0;
        if (last > -INFINITY ? t - last >= iv * (1 - 1e-9L) : t - start >= iv * (1 - 1e-9L)) lax = true;
        last = t;
        if (lax) return -1;
        if (t < due - tol) return 0;
        return t >= due + tol || (fired == 0 && t >= start) ? 1 : -1;
    }
    void did(L) { ++fired; }
};
struct RefLog {
    L start, end, iv, u;
    L lo = 1, hi = 1;  // exponents of the earliest and latest possible next due time
    bool lax, exact;  // a single due time on an origin of zero is the end itself, with no rounding
    RefLog(L s, L e, long n, L u) : start(s), end(e), iv(powl(e - s, 1.0L / n)), u(u), exact(n == 1 && s == 0) { lax = !(iv > 1 + 1e-9L); }
    L due(L k) { return start + powl(iv, k); }
    L tol(L k) { return exact && k == 1 ? 0 : (6 * k + 16) * u * powl(iv, k) * (1 + fabsl(start)) + 2 * u * (fabsl(start) + fabsl(end)); }
    int must(L t) {
        if (t < start || t > end) return 0;
        if (lax) return -1;
        if (t < due(lo) - tol(lo)) return 0;
        return t >= due(hi) + tol(hi) ? 1 : -1;
    }
    void did(L t) {
        if (lax) return;
        L k = floorl(logl(std::max(t - start, 1e-300L)) / logl(iv)) - 2;
        if (k < 1) k = 1;
        lo = std::max(lo, k);
        while (due(lo) + tol(lo) < t) ++lo;
        hi = std::max(hi, lo);
        while (due(hi) - tol(hi) <= t) ++hi;
        if (lo > hi) lo = hi;
    }
};
struct RefStep {
    long n, k = 0;
    int must(L) { return k++ % n == 0; }
    void did(L) {}
};
// observed times: regular, irregular, sparse, with dwell points
static std::vector<L> clock(vh::Rng& rng, L start, L end, L spacing, bool dbl, int kind) {
    std::vector<L> t;
    L span = end - start, x = start - (rng.chance(0.7) ? span * rng.u(0, 0.3) : 0);
    L top = end + span * rng.u(0, 0.3);
    if (rng.chance(0.1)) x = start + rng.u(0, 0.5) * span;
    for (int i = 0; i < 4000 && x <= top; ++i) {
        if (dbl) x = (double)x;
        if (t.empty() || x > t.back()) t.push_back(x);
        L h;
        switch (kind) {
            case 0: h = spacing * 0.37L; break;                          // regular
            case 1: h = spacing * rng.u(0.001, 0.95); break;             // irregular, always shorter
            case 2: h = spacing * rng.logu(0.01, 30); break;             // sparse
            case 3: h = spacing * (rng.chance(0.02) ? 3 : 0.25); break;  // mostly shorter, commensurate
            default: h = spacing * 0.5L;                                 // hits the due times themselves
        }
        x += h;
    }
    if (rng.chance(0.5)) { t.push_back(start); t.push_back(end); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); }
    return t;
}
template <class Ty, bool BOOL, int SLICE>
static void direct(vh::Rng& rng, std::string form) {
    using S = typename Ty::Scalar;
    using Vec = typename Ty::Vector;
    using Sys = system::SimpleSystem<particles::PointParticles<Ty>, F>;
    using P = typename Sys::Particle;
    const L u = std::is_same_v<S, long double> ? 0x1p-63L : 0x1p-52L;
    std::vector<P> ps{P(S(1), Vec(S(0), S(0), S(0)), Vec(S(0), S(0), S(0)))};
    Sys sys(S(0), ps);
    std::vector<Fire> log, flog;
    std::vector<char> answers;
    int na = (int)rng.i(1, 7);
    for (int i = 0; i < na; ++i) answers.push_back(rng.chance(0.4));
    auto params = [&](L& a, L& b, long& n) {
        double mag = rng.logu(1e-3, 1e6);
        a = rng.chance(0.3) ? 0 : (L)(double)(mag * rng.u(-3, 3));
        b = (L)(double)(a + mag * rng.u(0.5, 2));
        n = rng.chance(0.3) ? rng.i(1, 4) : rng.i(1, rng.chance(0.1) ? 5000 : 200);
        if (SLICE == 2) { b = (L)(double)(a + (rng.chance(0.1) ? rng.u(0.1, 1) : rng.logu(1.01, 1e6))); }
    };
    L a, b;
    long n;
    params(a, b, n);
    auto make = [&](L a, L b, long n, std::vector<Fire>& l) {
        Rec<BOOL> r{&l, &answers};
        if constexpr (SLICE == 0) return TimeSlice<Rec<BOOL>, S>(r, S(a), S(b), n);
        else if constexpr (SLICE == 1) return n == 1 ? StepSlice<Rec<BOOL>>(r) : StepSlice<Rec<BOOL>>(r, n);
        else return LogTimeSlice<Rec<BOOL>, S>(r, S(a), S(b), n);
    };
    auto refm = [&](L a, L b, long n) {
        if constexpr (SLICE == 0) return RefTime(a, b, n, u);
        else if constexpr (SLICE == 1) return RefStep{n};
        else return RefLog(a, b, n, 0x1p-52L);
    };
    auto cb = make(a, b, n, log);
    vh::eval(rng.next());
    int phases = (int)rng.i(1, 3);
    for (int ph = 0; ph < phases; ++ph) {
        if (ph > 0) {
            params(a, b, n);
            if constexpr (SLICE == 1) cb.reset_slice_params(n);
            else cb.reset_slice_params(S(a), S(b), n);
            if (rng.chance(0.3)) {  // a copy carries on with the same schedule
                auto c2 = cb;
                cb = c2;
            }
        }
        auto fresh = make(a, b, n, flog);
        auto m = refm(a, b, n);
        int kind = (int)rng.i(0, 4);
        L spacing = SLICE == 2 ? (rng.chance(0.5) ? (b - a) / 300 : std::max<L>((b - a) / 3000, powl(b - a, 1.0L / n) * 0.3L)) : (b - a) / n;
        if (SLICE == 1) spacing = (b - a) / 100;
        auto ts = clock(rng, a, b, spacing, !std::is_same_v<S, long double>, kind);
        if (ts.size() > 500) { size_t from = rng.chance(0.8) ? 0 : rng.i(0, ts.size() - 500); ts.erase(ts.begin(), ts.begin() + from); ts.resize(500); };
        static const char* kn[] = {"regular", "irregular", "sparse", "mixed", "commensurate"};
        vh::count(std::string("clock ") + kn[kind]);
        vh::count("observed states", ts.size());
        size_t base = log.size();
        for (size_t i = 0; i < ts.size(); ++i) {
            sys.time() = S(ts[i]);
            L t = (L)sys.time();
            S h = S(rng.u(-1, 1));
            size_t before = log.size(), fb = flog.size();
            bool ret = false, fret = false;
            if constexpr (BOOL) { ret = cb(sys, h); fret = fresh(sys, h); }
            else { cb(sys, h); fresh(sys, h); }
            size_t fired = log.size() - before;
            std::string ctx = vh::cat(form, " start ", a, " end ", b, " n ", n, " clock ", kn[kind], " state ", i, " t ", t, " fires ", log.size() - base, " phase ", ph);
            if (!vh::expect(fired <= 1, "fires at most once per state", ctx)) return;
            int want = m.must(t);
            if (want >= 0) { vh::count(want ? "due" : "not due"); if (!vh::expect((int)fired == want, want ? "fires when due" : "does not fire when not due", ctx)) return; }
            else vh::count("left open");
            if (fired) {
                m.did(t);
                vh::count("fires");
                vh::expect(log.back().t == t && log.back().step == (L)h && log.back().sys == &sys, "the wrapped callback gets the system and the step", ctx);
            }
            if (!vh::expect(flog.size() - fb == fired, "a re-parametrised schedule is a fresh schedule", ctx)) return;
            if constexpr (BOOL) {
                if (!vh::expect(ret == (fired && answers[(log.size() - 1) % answers.size()]), "the verdict is passed through", ctx)) return;
                (void)fret;
            }
        }
        vh::count("fires in phase", log.size() - base);
        vh::expect(cb.operation().log == &log, "operation() is the wrapped callback", form);
    }
}
// in real runs
template <class Solver, int SLICE>
static void run(vh::Rng& rng, std::string form) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    const L u = 0x1p-52L;
    L t0 = rng.chance(0.5) ? 0 : (L)rng.u(-5, 5), span = rng.u(1.2, 6), a = (double)(t0 + span * rng.u(0, 0.3)), b = (double)(t0 + span * rng.u(0.6, 1.2));
    if (rng.chance(0.3)) a = (double)t0;
    if (SLICE == 2) b = (double)std::max<L>(b, a + 1.1L);
    long n = SLICE == 1 ? rng.i(1, 20) : rng.i(1, 60);
    double ecc = rng.u(0, 0.8);
    Solver sim(S(t0), P(S(1), S(0), S(0), S(0), S(0), S(0), S(0)), P(S(0.1), S(1 - ecc), S(0), S(0), S(0), S(sqrt(1.1 * (1 + ecc) / (1 - ecc))), S(0)));
    std::vector<Fire> log, slog;
    std::vector<L> seen;
    std::vector<char> none{0}, answers;
    int na = (int)rng.i(2, 30), stop_after = (int)rng.i(0, na);
    for (int i = 0; i < 100000; ++i) answers.push_back(i >= stop_after);
    typename Solver::RunArgs args;
    bool as_stop = rng.chance(0.5);
    auto make = [&](auto r) {
        using R = decltype(r);
        if constexpr (SLICE == 0) return TimeSlice<R, S>(r, S(a), S(b), n);
        else if constexpr (SLICE == 1) return StepSlice<R>(r, n);
        else return LogTimeSlice<R, S>(r, S(a), S(b), n);
    };
    auto refm = [&] {
        if constexpr (SLICE == 0) return RefTime(a, b, n, u);
        else if constexpr (SLICE == 1) return RefStep{n};
        else return RefLog(a, b, n, 0x1p-52L);
    };
    args.add_operation([&](auto& p, auto) { seen.push_back((L)p.time()); });
    args.add_operation(make(Rec<false>{&log}));
    if (as_stop) args.add_stop_condition(make(Rec<true>{&slog, &answers}));
    args.add_stop_condition(S(t0 + span));
    args.rtol = 1e-10;
    args.time_rtol = 1e-12;
    if (fabsl(t0 + span) < 0.1) return;
    if (rng.chance(0.6)) args.step_size = rng.logu(1e-3, 0.1);
    try { sim.run(args); } catch (vh::Aborted) { vh::expect(false, "a run is not given up", form); return; }
    vh::eval(rng.next());
    vh::count("runs " + form);
    std::string ctx = vh::cat(form, " start ", a, " end ", b, " n ", n, " from ", t0, " to ", t0 + span, " states ", seen.size(), " stop after ", as_stop ? stop_after : -1);
    auto judge = [&](std::vector<Fire> const& l, size_t states, const char* what) {
        auto m = refm();
        size_t k = 0;
        for (size_t i = 0; i < states; ++i) {
            int want = m.must(seen[i]);
            bool fired = k < l.size() && l[k].t == seen[i];
            if (want >= 0) { vh::count(want ? "due in runs" : "not due in runs"); if (!vh::expect(fired == (want == 1), what, "state ", i, " t ", seen[i], " fired ", fired, " ", ctx)) return; }
            if (fired) { ++k; m.did(seen[i]); }
        }
        vh::expect(k == l.size(), "every fire belongs to an observed state", ctx, " fires ", l.size(), " matched ", k);
    };
    for (size_t i = 1; i < seen.size(); ++i) if (seen[i] <= seen[i - 1]) { vh::count("non-monotone tails left open"); return; }
    judge(log, seen.size(), "a sliced operation fires when due");
    if (as_stop) {
        bool by_cond = (int)slog.size() > stop_after;
        size_t states = by_cond ? seen.size() : seen.size() - 1;
        judge(slog, states, "a sliced stop condition is asked when due");
        vh::expect((int)slog.size() <= stop_after + 1, "the verdict of a sliced stop condition ends the run", ctx, " asked ", slog.size());
        if (by_cond) {
            vh::count("runs ended by a sliced condition");
            vh::expect(slog.back().t == seen.back(), "the run ends at the state where the sliced condition held", ctx);
        } else vh::expect(fabsl(seen.back() - t0 - span) < 1e-10L, "otherwise the run goes on to its end", ctx, " ended at ", seen.back());
    }
}
void vh_main() {
    using D = Types<double, Vec3>;
    using K = Types<double_k, Vec3>;
    using X = Types<long double, Vec3>;
    long n = vh::scale(2500, 60000), nr = vh::scale(1200, 30000);
#define ALL(TY, NAME) \
    vh::cases("time slice " NAME, n, [](vh::Rng& r, long) { direct<TY, false, 0>(r, "TimeSlice void " NAME); direct<TY, true, 0>(r, "TimeSlice bool " NAME); }); \
    vh::cases("step slice " NAME, n / 4, [](vh::Rng& r, long) { direct<TY, false, 1>(r, "StepSlice void " NAME); direct<TY, true, 1>(r, "StepSlice bool " NAME); }); \
    vh::cases("log slice " NAME, n, [](vh::Rng& r, long) { direct<TY, false, 2>(r, "LogTimeSlice void " NAME); direct<TY, true, 2>(r, "LogTimeSlice bool " NAME); });
    ALL(D, "double")
    ALL(K, "double_k")
    ALL(X, "long double")
#define RUN(M) \
    vh::cases("run " #M, nr, [](vh::Rng& r, long) { run<methods::M<F>, 0>(r, #M " time"); run<methods::M<F>, 1>(r, #M " step"); run<methods::M<F>, 2>(r, #M " log"); });
    RUN(BS)
    RUN(Const_Sym4)
    RUN(AR_Chain_Plus)
}
