// C05: event log of a run: start operations, every state once to every operation in order, stop operations, end time.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
#include <sys/wait.h>
using namespace hub;
using ref::L;
using F = force::Interactions<force::NewtonianGrav>;

enum Kind { START, OP, STOP, COND };
struct Ev {
    int kind, id;
    L t, step, scale;
    uint64_t hash;  // of everything visible in the state
    bool verdict;
};
static uint64_t bits(L x) {
    double d = (double)x, r = (double)(x - d);
    uint64_t a, b;
    memcpy(&a, &d, 8);
    memcpy(&b, &r, 8);
    return vh::mix(a ^ vh::mix(b));
}
template <class Sys>
static uint64_t state_hash(Sys const& s) {
    uint64_t h = bits((L)s.time());
    for (size_t i = 0; i < s.number(); ++i)
        for (auto const& q : {s.pos(i), s.vel(i)}) h = vh::mix(h + bits((L)q.x)), h = vh::mix(h + bits((L)q.y)), h = vh::mix(h + bits((L)q.z));
    return h;
}
// a stateful stop condition: holds at the k-th state it is asked about, or once time passes tcut
struct Counter {
    std::vector<Ev>* log;
    int id;
    long k;
    L tcut;
    long asked = 0;
    template <class Sys, class S>
    bool operator()(Sys& s, S h) {
        ++asked;
        bool v = asked >= k || (L)s.time() >= tcut;
        log->push_back({COND, id, (L)s.time(), (L)h, (L)s.step_scale(), state_hash(s), v});
        return v;
    }
};
struct Bound {  // bound trailing arguments reach the operation
    std::vector<Ev>* log;
    int kind;
    template <class Sys, class S>
    void operator()(Sys& s, S h, int id, std::string const& tag) const {
        if (tag != "tag" + std::to_string(id)) vh::viol("bound arguments reach the callback", tag);
        log->push_back({kind, id, (L)s.time(), (L)h, (L)s.step_scale(), state_hash(s), false});
    }
};
static long serial_of(std::vector<Ev> const& v, int kind, int id) { long n = 0; for (auto& e : v) n += e.kind == kind && e.id == id; return n; }

template <class Solver>
static void one(vh::Rng& rng, std::string form, bool regular, bool constant, long cap) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    const L u = 0x1p-52L;
    int n = (int)rng.i(2, 5);
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) ps.push_back(P(S(rng.logu(0.2, 1)), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal())), Vec(S(0.4 * rng.normal()), S(0.4 * rng.normal()), S(0.4 * rng.normal()))));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((double)norm(ps[i].pos - ps[j].pos) < 0.2) return;
    L t0 = rng.chance(0.4) ? 0 : (L)rng.u(-8, 8);
    Solver sim(S(t0), ps);
    int runs = (int)rng.i(1, 4);
    L prev_t = t0;
    uint64_t prev_hash = state_hash(sim.particles());
    bool again = false;
    typename Solver::RunArgs kept;
    for (int r = 0; r < runs; ++r) {
        typename Solver::RunArgs args;
        std::vector<Ev> log;
        int ns = (int)rng.i(0, 3), no = (int)rng.i(1, 4), ne = (int)rng.i(0, 3), nc = (int)rng.i(0, 3);
        auto add = [&](int kind, int id) {
            int how = (int)rng.i(0, 1);
            std::string tag = "tag" + std::to_string(id);
            auto l = [&log, kind, id](auto& s, auto h) { log.push_back({kind, id, (L)s.time(), (L)h, (L)s.step_scale(), state_hash(s), false}); };
            Bound b{&log, kind};
            if (kind == START) how ? args.add_start_point_operation(l) : args.add_start_point_operation(b, id, tag);
            if (kind == OP) how ? args.add_operation(l) : args.add_operation(b, id, tag);
            if (kind == STOP) how ? args.add_stop_point_operation(l) : args.add_stop_point_operation(b, id, tag);
        };
        L span = rng.logu(0.05, 1.0), tend = prev_t + span;
        if (rng.chance(0.05)) tend = prev_t < 0 ? 0 : tend;
        if (tend == 0 && prev_t == 0) tend = 0.5;
        if (rng.chance(0.02)) tend = prev_t;
        tend = (L)(double)tend;
        if (fabsl(tend) < 0.01 && tend != 0) tend = 0.5;
        if (tend < prev_t) tend = prev_t + 1;
        span = tend - prev_t;
        bool by_end = nc == 0 || rng.chance(0.75);
        std::vector<std::pair<long, L>> cond;
        // interleave registrations
        std::vector<int> order;
        for (int i = 0; i < ns; ++i) order.push_back(START);
        for (int i = 0; i < no; ++i) order.push_back(OP);
        for (int i = 0; i < ne; ++i) order.push_back(STOP);
        for (int i = 0; i < nc; ++i) order.push_back(COND);
        if (by_end) order.push_back(9);
        for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[rng.i(0, i)]);
        int idn[4] = {0, 0, 0, 0};
        for (int k : order) {
            if (k == 9) args.add_stop_condition(S(tend));
            else if (k == COND) {
                long q = rng.chance(0.5) ? 1000000 : rng.chance(0.2) ? 1 : rng.i(2, 30);
                L tc = rng.chance(0.5) ? prev_t + span * rng.u(0.2, 0.9) : 1e30L;
                if (!by_end && idn[COND] == 0) tc = prev_t + span * rng.u(0.2, 0.9);
                cond.push_back({q, tc});
                args.add_stop_condition(Counter{&log, idn[COND]++, q, tc});
            } else { int id = idn[k]++; add(k, id); }
        }
        args.add_stop_condition([&](auto&, auto) { return (long)log.size() > cap; });
        args.rtol = 1e-9;
        L rtol = 1e-8L;
        if (rng.chance(0.5)) args.time_rtol = (double)(rtol = (L)rng.logu(1e-12, 1e-2));
        double h0 = 0;
        if (rng.chance(0.5)) args.step_size = h0 = (constant ? rng.logu(0.002, 0.05) : rng.logu(1e-5, 0.1)) * (regular ? 0.3 : 1);
        double hdef = h0;
        if (h0 == 0) hdef = 0.1 * (double)calc::calc_step_scale(sim.particles()) * (double)calc::calc_fall_free_time(sim.particles().mass(), sim.particles().pos());
        bool copied = rng.chance(0.3);
        try {
            if (copied) { auto c2 = args; sim.run(c2); }
            else sim.run(args);
        } catch (vh::Aborted) {
            vh::expect(false, "a run is not given up", form, " run ", r, " from ", prev_t, " to ", tend, " h ", h0);
            return;
        }
        vh::eval(rng.next());
        std::string ctx = vh::cat(form, " run ", r, " of ", runs, " from ", prev_t, " to ", by_end ? tend : 1e30L, " rtol ", rtol, " h ", h0, " ops ", ns, "/", no, "/", ne, " conditions ", nc);
        if ((long)log.size() > cap) { vh::count("capped runs"); return; }
        vh::count("runs " + form);
        vh::count("events", log.size());
        auto fail = [&](bool ok, const char* what, auto... more) { return vh::expect(ok, what, more..., " ", ctx); };
        // ---- start operations first, stop operations last, in registration order, once
        size_t b = 0, e = log.size();
        bool ok = log.size() >= (size_t)(ns + no + ne);
        for (int i = 0; ok && i < ns; ++i) ok = log[b].kind == START && log[b].id == i && log[b].t == prev_t && log[b].hash == prev_hash, ++b;
        fail(ok, "start-point operations run first, once, in order, on the state the run starts from");
        bool ok2 = ok;
        for (int i = ne; ok2 && i-- > 0;) ok2 = e > b && log[e - 1].kind == STOP && log[e - 1].id == i, --e;
        fail(ok2, "stop-point operations run last, once, in order");
        if (!ok || !ok2) return;
        L last_t = (L)sim.particles().time();
        uint64_t last_hash = state_hash(sim.particles());
        for (size_t i = e; i < log.size(); ++i) fail(log[i].hash == last_hash, "stop-point operations see the final state");
        // ---- the middle: no start/stop operations; ops in whole rounds; conditions asked about the same states
        std::vector<L> times;
        std::vector<uint64_t> hs;
        std::vector<L> steps, scales;
        std::vector<std::vector<L>> asked(nc);
        std::vector<std::vector<uint64_t>> asked_h(nc);
        std::vector<int> held(nc, 0);
        int next_op = 0;
        ok = true;
        for (size_t i = b; i < e; ++i) {
            auto& v = log[i];
            if (v.kind == START || v.kind == STOP) { ok = false; break; }
            if (v.kind == OP) {
                if (v.id != next_op) { ok = false; break; }
                if (v.id == 0) times.push_back(v.t), hs.push_back(v.hash), steps.push_back(v.step), scales.push_back(v.scale);
                else if (v.hash != hs.back() || v.t != times.back() || v.step != steps.back()) { ok = false; break; }
                next_op = (next_op + 1) % no;
            } else {
                asked[v.id].push_back(v.t);
                asked_h[v.id].push_back(v.hash);
                held[v.id] += v.verdict;
            }
        }
        if (!fail(ok && next_op == 0, "every state goes to every operation in registration order")) return;
        size_t K = times.size();
        vh::count("states", K);
        if (!fail(K > 0, "states are shown")) return;
        fail(times[0] == prev_t && hs[0] == prev_hash, r ? "a later run continues from where the last one ended" : "the initial state is shown");
        fail(times[K - 1] == last_t && hs[K - 1] == last_hash, "the final state is shown");
        for (size_t i = 0; i < K; ++i) for (size_t j = i + 1; j < std::min(K, i + 4); ++j) if (!fail(hs[i] != hs[j], "no state is shown twice", "states ", i, ",", j)) break;
        // ---- where it ended
        bool by_cond = false;
        for (int c = 0; c < nc; ++c) by_cond = by_cond || held[c];
        L tscale = tend == 0 ? fabsl(prev_t) : fabsl(tend);
        auto reached = [&](L t) { return by_end && fabsl(t - tend) <= rtol * tscale * (1 + 1e-6L); };
        auto clearly_reached = [&](L t) { return by_end && fabsl(t - tend) <= rtol * tscale * (1 - 1e-6L); };
        for (size_t i = 0; i + 1 < K; ++i) if (!fail(!clearly_reached(times[i]), "the run stops at the first state within the tolerance of the end time", "state ", i, " of ", K)) break;
        fail(by_cond || reached(last_t), "the run ends at the end time or at a stop condition", "ended at ", last_t);
        if (by_cond) vh::count("ended by a condition");
        if (reached(last_t)) vh::count("ended by time");
        // conditions: a condition holds only at the last state, and each state is asked about once
        bool seq = true;
        for (int c = 0; c < nc; ++c) {
            size_t m = asked[c].size();
            bool full = m >= K - 1 && m <= K;
            // a condition may go unasked at the last state only if another one held there or the end time was reached
            seq = seq && full;
            for (size_t i = 0; i < std::min(m, K); ++i) seq = seq && asked_h[c][i] == hs[i];
            if (m < K && !reached(last_t)) { bool other = false; for (int d = 0; d < nc; ++d) other = other || (d != c && held[d]); seq = seq && other; }
            if (held[c]) seq = seq && held[c] == 1 && m == K;
            // the independent verdicts
            for (size_t i = 0; i + 1 < K; ++i) {
                bool want = (long)(i + 1) >= cond[c].first || times[i] >= cond[c].second;
                if (!fail(!want, "the run stops at the first state at which a stop condition holds", "condition ", c, " state ", i, " of ", K)) break;
            }
        }
        fail(seq, "stop conditions are asked once about every state");
        // ---- time order
        size_t cross = K;
        for (size_t i = 0; i < K; ++i) if (by_end && times[i] > tend + 100 * u * (fabsl(tend) + fabsl(prev_t))) { cross = i; break; }
        bool inc = true;
        for (size_t i = 1; i < std::min(K, cross + 1); ++i) inc = inc && times[i] > times[i - 1];
        fail(inc, "time increases strictly");
        if (!regular) fail(cross == K, "the end time is not passed", "passed at ", cross == K ? 0 : times[cross]);
        else if (cross < K) {
            vh::count("regularised runs crossing the end time");
            bool home = true;
            for (size_t i = cross + 1; i < K; ++i) home = home && fabsl(times[i] - tend) < fabsl(times[i - 1] - tend);
            fail(home, "after crossing, a regularised run homes in on the end time", "crossed at ", times[cross]);
            // crossing is the error of converting one last step, not a run that went on
            if (cross > 0) vh::maxi("crossing distance over last step", (double)((times[cross] - tend) / (times[cross] - times[cross - 1])));
        }
        // ---- steps
        if (by_end) {
            bool aim = true;
            for (size_t i = 0; i + 1 < K; ++i) aim = aim && fabsl(steps[i]) <= fabsl(tend - times[i]) * scales[i] * (1 + 1e-9L) + 16 * u * (fabsl(tend) + fabsl(times[i])) * scales[i];
            fail(aim, "no step aims beyond the end time");
        }
        if (K > 1) {
            L lim = by_end ? std::min<L>(hdef, 1e30L) : hdef;
            if (!regular) {
                fail(times[1] - times[0] <= hdef * (1 + 1e-12L) + 16 * u * (fabsl(t0) + fabsl(tend)), "the first step is no longer than asked for", "step ", times[1] - times[0], " asked ", hdef);
                fail(steps[0] <= lim * (1 + 1e-12L), "operations see the coming step", steps[0], " ", lim);
            }
            if (constant && !regular) {
                bool cs = true;
                for (size_t i = 0; i + 1 < K; ++i) {
                    L dt = times[i + 1] - times[i], tol = 16 * u * (fabsl(times[i]) + fabsl(times[i + 1]) + fabsl(tend) + 1);
                    bool last = by_end && fabsl(times[i + 1] - tend) <= tol;
                    cs = cs && (last ? dt <= hdef * (1 + 1e-12L) + tol : fabsl(dt - hdef) <= tol + 1e-12L * hdef) && fabsl(dt - steps[i]) <= tol;
                }
                fail(cs, "constant steps have the size asked for", hdef);
                vh::count("constant-step states", K);
            }
        }
        prev_t = last_t;
        prev_hash = last_hash;
    }
}
static void refuse(vh::Rng& rng, long) {
    int fd[2];
    if (pipe(fd)) return;
    pid_t p = fork();
    if (p == 0) {
        dup2(fd[1], 1); dup2(fd[1], 2);
        using Solver = methods::BS<F>;
        using P = Solver::Particle;
        Solver sim(0, P(1, 0, 0, 0, 0, 0, 0), P(1, 1, 0, 0, 0, 1, 0));
        Solver::RunArgs a;
        a.add_operation([](auto&, auto) {});
        try { sim.run(a); } catch (vh::Aborted) { _exit(0); }
        _exit(55);
    }
    close(fd[1]);
    int st;
    std::string o;
    char buf[512];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) o.append(buf, k);
    close(fd[0]);
    waitpid(p, &st, 0);
    vh::eval(rng.next());
    vh::count("refused runs");
    vh::expect(!(WIFEXITED(st) && WEXITSTATUS(st) == 55), "a run without any stop condition is refused", o);
}
void vh_main() {
    long n = vh::scale(12000, 200000);
#define RUN(M, REG, CONST) vh::cases(#M, n, [](vh::Rng& r, long) { one<methods::M<F>>(r, #M, REG, CONST, 60000); });
#if PART == 1
    RUN(BS, false, false)
    RUN(Chain_BS_Plus, false, false)
    RUN(DefaultMethod, true, false)
    vh::cases("refuse", 4, refuse);
#elif PART == 2
    RUN(Sym4, false, false)
    RUN(Const_Sym6, false, true)
    RUN(Const_Chain_Sym4_Plus, false, true)
    RUN(AR_Sym6_Chain, true, false)
#elif PART == 3
    RUN(Radau_Plus, false, false)
    RUN(Const_Radau, false, true)
    RUN(AR_Radau, true, false)
#else
    RUN(AR_BS_Ext, true, false)
    RUN(Chain_Sym8_Ext, false, false)
    RUN(Const_AR_Sym2, true, true)
#endif
}
