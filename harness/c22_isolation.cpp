// C22: the same simulation gives the same bits whatever ran before, beside it, or was in memory; also in other threads
// and in another process. Every accepted state of a run is folded into a hash; hashes of repetitions are compared.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "sched.hpp"
#include "scen.hpp"
#include <malloc.h>
#include <sys/wait.h>
#include <map>
using namespace hub;
using ref::Body;
using ref::L;
using ref::V;
using vh::cat;
double force::AlphaDisk::Q = 1.4;
double force::AlphaDisk::alpha = 0.05;
double force::AlphaDisk::lambda = 0.3;
int force::AlphaDisk::force = 0;
template <class T> using PT = particles::TideParticles<T>;
using Newton = force::Interactions<force::NewtonianGrav>;
using Post = force::Interactions<force::NewtonianGrav, force::PN1, force::PN2, force::PN2p5>;
using Tides = force::Interactions<force::NewtonianGrav, force::Tidal>;
using Alpha = force::Interactions<force::NewtonianGrav, force::AlphaDisk>;
using Magneto = force::Interactions<force::NewtonianGrav, force::MagnetoDisk>;
struct Spring {  // external field
    constexpr static bool vel_dependent{false};
    template <typename Particles>
    static void add_acc_to(Particles const& p, typename Particles::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] -= p.pos(i) * 0.01; }
};
struct Friction {
    constexpr static bool vel_dependent{true};
    template <typename Particles>
    static void add_acc_to(Particles const& p, typename Particles::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] -= p.vel(i) * 0.002; }
};
using Outer = force::Interactions<force::NewtonianGrav, Spring, Friction>;

struct Trace {
    uint64_t hash = 14695981039346656037ull;
    long states = 0;
    void add(uint64_t x) { hash = vh::mix(hash ^ (x + 0x9e3779b97f4a7c15ull)); }
    template <class T> void bits(T const& x) {
        if constexpr (std::is_class_v<T>) { add_raw(x.real); add_raw(x.err); }
        else add_raw(x);
    }
    void add_raw(double x) { uint64_t u; memcpy(&u, &x, 8); add(x == 0 ? u + 5 : u); }
    void add_raw(float x) { add_raw((double)x); }
    void add_raw(long double x) { uint64_t u[2] = {0, 0}; memcpy(u, &x, 10); add(u[0]), add(u[1]); }
    template <class P, class S> void state(P& p, S h) {
        ++states;
        bits(p.time()), bits(h), bits(p.step_scale());
        for (size_t i = 0; i < p.number(); ++i) for (auto const& q : {p.pos(i), p.vel(i)}) bits(q.x), bits(q.y), bits(q.z);
    }
    void text(std::string const& s) { add(vh::hash_str(s)); }
    bool operator==(Trace const& o) const { return hash == o.hash && states == o.states; }
};
// how a simulation is set up and run; none of these may matter
struct How {
    enum { plain, moved, copied, copy_after, args_copied, args_shared, args_kept, dirty, small_stack, kinds };
    int kind = plain;
    bool without = false;  // leave out the other simulator
};
static char const* how_name[] = {"again", "simulator moved before the run", "copy of a simulator", "after a copy of the simulator ran", "copied arguments", "arguments used by another simulator before", "arguments that outlive their simulator", "dirty memory", "on another stack"};
struct Job {
    std::string name;
    uint64_t seed;
    std::function<Trace(uint64_t, How)> run;
};
__attribute__((noinline)) static void soil_stack(int v) {
    volatile char a[60000];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)(v + i * 13);
    (void)a[100];
}
static std::string slurp(std::string const& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string scratch_file() { static std::atomic<long> n{0}; return vh::S().scratch + "/o" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".txt"; }

template <class Solver>
Trace simulate(uint64_t seed, How how) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    vh::Rng r(seed);
    std::vector<P> ps;
    int form = (int)r.i(0, 9);
    auto add = [&](L m, V x, V v, double rad) { ps.emplace_back(S(m), S(rad), S(0.1), S(1e-4), Vec(S(x.x), S(x.y), S(x.z)), Vec(S(v.x), S(v.y), S(v.z))); };
    double T = 1;
    if (form < 6) {
        static const int kinds[] = {0, 2, 3, 4, 5, 6};
        auto s = scen::make(r, kinds[form], r.chance(0.3));
        for (auto& b : s.b) add(b.m, b.r, b.v, 1e-4);
        T = (double)s.T * r.u(0.1, 0.4);
    } else {
        int n = form == 9 ? (int)r.i(13, 40) : (int)r.i(3, 12);
        for (int i = 0; i < n; ++i) add(r.logu(0.01, 1), V(r.normal(), r.normal(), r.normal()) * 3, V(r.normal(), r.normal(), r.normal()) * 0.3, 1e-3);
        T = r.u(0.2, 1);
    }
    double t0 = r.chance(0.3) ? r.u(-3, 3) : 0;
    Trace t;
    typename Solver::RunArgs a;
    a.rtol = S(r.logu(1e-13, 1e-8));
    if (r.chance(0.3)) a.atol = S(1e-13);
    a.add_stop_condition(S(t0 + T));
    long cap = ps.size() > 12 ? 8 : 60;
    int extras = (int)r.i(0, 4);
    std::vector<std::string> files;
    bool stateless = how.kind == How::args_shared;
    long n = 0;
    bool recording = !stateless;
    a.add_operation([&](auto& p, auto h) { if (recording) t.state(p, h); });
    a.add_stop_condition([&](auto&, auto) { return recording && ++n > cap; });
    if (extras == 1 && !stateless) files.push_back(scratch_file()), a.add_operation(callback::DefaultWriter(files.back()));
    if (extras == 2 && !stateless) files.push_back(scratch_file()), a.add_operation(callback::EnergyErrWriter(files.back()));
    if (extras == 3 && !stateless) a.add_operation(callback::TimeSlice([&](auto& p, auto h) { t.state(p, h); t.add(99); }, t0, t0 + T, 7));
    if (extras == 4) a.add_stop_condition(callback::StickyCollision());
    try {
        switch (how.kind) {
            case How::moved: {
                auto one = std::make_unique<Solver>(S(t0), ps);
                Solver two(std::move(*one));
                one.reset();
                two.run(a);
                break;
            }
            case How::copied: {
                auto one = std::make_unique<Solver>(S(t0), ps);
                Solver two(*one);
                one.reset();
                two.run(a);
                break;
            }
            case How::copy_after: {
                Solver one(S(t0), ps), two(one);
                typename Solver::RunArgs b;
                b.rtol = S(1e-6);
                long k = 0;
                b.add_stop_condition([&](auto&, auto) { return ++k > 5; });
                b.add_stop_condition(S(t0 + T));
                two.run(b);
                one.run(a);
                break;
            }
            case How::args_copied: {
                Solver one(S(t0), ps);
                auto b = std::make_unique<typename Solver::RunArgs>(a);
                auto c = *b;
                b.reset();
                one.run(c);
                break;
            }
            case How::args_shared: {
                Solver one(S(t0), ps), two(S(t0), ps);
                long k = 0;
                a.add_stop_condition([&](auto&, auto) { return !recording && ++k > 4; });
                if (!how.without) one.run(a);
                recording = true;
                two.run(a);
                break;
            }
            case How::args_kept: {
                auto one = std::make_unique<Solver>(S(t0), ps);
                one->run(a);
                one.reset();
                break;
            }
            case How::dirty: {
                soil_stack((int)(seed % 251));
                Solver one(S(t0), ps);
                soil_stack((int)(seed % 241));
                one.run(a);
                break;
            }
            default: {
                Solver one(S(t0), ps);
                one.run(a);
            }
        }
    } catch (vh::Aborted const& e) {
        t.text("gave up");
    }
    for (auto& f : files) {
        a = typename Solver::RunArgs{};  // closes the file
        std::string s = slurp(f);
        t.text(s);
        remove(f.c_str());
        t.add(s.size());
    }
    return t;
}
// the tools outside of simulations
static Trace toolbox(uint64_t seed, How) {
    vh::Rng r(seed);
    Trace t;
    using P = particles::PointParticles<Types<double, Vec3>>::Particle;
    for (int k = 0; k < 20; ++k) {
        double e = k % 3 == 0 ? r.u(0, 0.99) : k % 3 == 1 ? 1 : r.u(1.01, 5);
        double m1 = r.logu(0.1, 10), m2 = r.logu(0.1, 10);
        double lim = e < 1 ? 3 : 0.9 * std::acos(-1 / std::max(e, 1.0001));
        orbit::KeplerOrbit o(m1, m2, r.logu(0.1, 10), e, r.u(0.1, 3), r.u(0, 6), r.u(0, 6), r.u(-lim, lim));
        auto [x, v] = orbit::orbit_to_coord<Vec3<double>>(o);
        auto back = orbit::coord_to_orbit(m1, m2, -x, -v);
        t.bits(x.x), t.bits(x.y), t.bits(x.z), t.bits(v.x), t.bits(v.z), t.bits(back.e), t.bits(back.p), t.bits(back.nu);
        P a(m1, Vec3<double>(0, 0, 0), Vec3<double>(0, 0, 0)), b(m2, x, v);
        orbit::move_to_COM_frame(a, b);
        t.bits(orbit::M_anomaly_to_T_anomaly(r.u(-2, 2), k % 3 == 1 ? 1.0 : e)), t.bits(a.pos.x), t.bits(b.vel.y);
        t.bits(orbit::E_tot(a, b));
    }
    t.states = 20;
    return t;
}
static std::vector<Job> jobs;
template <class Solver> void add(char const* name, long n) {
    for (long i = 0; i < n; ++i) {
        uint64_t s = vh::mix(vh::S().seed * 7919 + i) ^ vh::hash_str(name);
        jobs.push_back({cat(name, "#", i), s, [](uint64_t seed, How h) { return simulate<Solver>(seed, h); }});
    }
}
#define A(NAME, FORCE) add<methods::NAME<FORCE, PT>>(#NAME "<" #FORCE ">", per);

void vh_main() {
#ifdef SCHED_TSAN
    long per = vh::scale(1, 6), crews = vh::scale(3, 12);
#elif defined(SMALL)
    long per = vh::scale(2, 12), crews = vh::scale(2, 20);
#else
    long per = vh::scale(8, 80), crews = vh::scale(8, 40);
#endif
#if PART == 1
    A(BS, Newton) A(AR_BS_Plus, Post) A(Chain_BS, Outer) A(AR_Chain_Plus, Newton) A(AR_Chain, Tides) A(Const_Sym4, Newton)
#elif PART == 2
    A(Sym4, Newton) A(AR_Sym4, Tides) A(Sym6_Plus, Newton) A(Chain_Sym6, Newton) A(Const_AR_Sym6_Chain, Newton) A(AR_Sym6_Chain, Outer)
#elif PART == 3
    A(Sym8, Post) A(AR_Sym8, Alpha) A(AR_Sym8_Chain, Newton) A(Chain_Sym8, Tides) A(Sym2, Newton) A(AR_Sym2_Chain_Plus, Newton)
#elif PART == 4
    A(Radau, Newton) A(Chain_Radau, Outer) A(AR_Radau, Post) A(AR_Radau_Chain_Plus, Newton) A(Const_Radau, Newton) A(Radau_Plus, Tides)
#elif PART == 5
    A(Sym10, Newton) A(AR_Sym10_Chain, Newton) A(Chain_Sym10, Outer) A(AR_Sym10, Newton) A(AR_BS, Magneto) A(BS_Plus, Alpha)
#elif PART == 6
    A(BS_Ext, Newton) A(AR_Chain_Ext, Post) A(Sym6_Ext, Outer) A(AR_Radau_ExtPlus, Newton) A(AR_Sym8_Ext, Tides) A(AR_Chain_ExtPlus, Newton)
#endif
    for (long i = 0; i < per * 3; ++i) jobs.push_back({cat("tools#", i), vh::mix(vh::S().seed + 31 * i), toolbox});
    size_t n = jobs.size();
    std::vector<Trace> first(n);
#ifndef SCHED_TSAN
    // another process, in reverse order
    int fd[2];
    std::vector<Trace> other(n);
    pid_t child = -1;
    if (pipe(fd) == 0) {
        fflush(nullptr);
        child = fork();
        if (child == 0) {
            close(fd[0]);
            mallopt(M_PERTURB, 0x5a);
            for (size_t i = n; i-- > 0;) other[i] = jobs[i].run(jobs[i].seed, How{});
            size_t len = n * sizeof(Trace), at = 0;
            while (at < len) { ssize_t k = write(fd[1], (char*)other.data() + at, len - at); if (k <= 0) break; at += k; }
            _exit(0);
        }
        close(fd[1]);
    }
#endif
    sched::Watchdog* dog = nullptr;
    for (size_t i = 0; i < n; ++i) {
        first[i] = jobs[i].run(jobs[i].seed, How{});
        vh::count("simulations alone");
        vh::count("states recorded", first[i].states);
        vh::eval(first[i].hash, first[i].states > 1);
        vh::sample(cat(jobs[i].name, " states ", first[i].states, " hash ", first[i].hash));
        sched::beat();
    }
#ifndef SCHED_TSAN
    if (child > 0) {
        size_t len = n * sizeof(Trace), at = 0;
        while (at < len) { ssize_t k = read(fd[0], (char*)other.data() + at, len - at); if (k <= 0) break; at += k; }
        int st = 0;
        waitpid(child, &st, 0);
        close(fd[0]);
        if (at == len) {
            for (size_t i = 0; i < n; ++i) {
                vh::expect(other[i] == first[i], "same result in another process and order", jobs[i].name, " states ", first[i].states, " and ", other[i].states);
                vh::count("simulations in another process");
            }
        } else vh::viol("simulations in another process end", cat("status ", st, " after ", at, " bytes"));
    }
#endif
    dog = new sched::Watchdog;
    vh::cases("alone", (long)n, [&](vh::Rng& r, long i) {
        auto& j = jobs[i];
        for (int k = 0; k < How::kinds; ++k) {
#if defined(SCHED_TSAN)
            if (k > 1) break;
#endif
            // something else in between
            size_t o = (size_t)r.i(0, (long)n - 1);
            jobs[o].run(jobs[o].seed + 1 + (uint64_t)k, How{});
            How h;
            h.kind = k;
            Trace t;
#ifndef SCHED_TSAN
            if (k == How::dirty) mallopt(M_PERTURB, (int)r.i(1, 255));
            if (k == How::small_stack) { std::thread th([&] { vh::Rng q(3); t = j.run(j.seed, h); }); th.join(); }
            else t = j.run(j.seed, h);
            mallopt(M_PERTURB, 0);
#else
            t = j.run(j.seed, h);
#endif
            if (k == How::args_shared) {  // observers that keep state were left out: compare with a run set up the same way
                h.without = true;
                Trace u = j.run(j.seed, h);
                vh::expect(t == u, "same result again", j.name, " ", how_name[k]);
            } else vh::expect(t == first[i], "same result again", j.name, " ", how_name[k], " states ", first[i].states, " and ", t.states);
            vh::count(cat("repeated: ", how_name[k]));
            vh::eval(t.hash ^ (uint64_t)k, true);
            sched::beat();
        }
    });
    vh::cases("together", crews, [&](vh::Rng& r, long c) {
        int k = (int)r.i(2, 12);
        size_t each = std::max<size_t>(1, n / 3);
        std::vector<std::vector<std::pair<size_t, Trace>>> res(k);
        std::vector<uint64_t> seeds(k);
        for (auto& s : seeds) s = r.next();
        bool same = r.chance(0.3);  // all threads run the same simulations at the same time
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < k; ++t) th.emplace_back([&, t] {
            vh::Rng q(same ? seeds[0] : seeds[t]);
            ++ready;
            while (ready < k) sched_yield();
            for (size_t i = 0; i < each; ++i) {
                size_t j = (size_t)q.i(0, (long)n - 1);
                How h;
                h.kind = (int)q.pick(std::vector<int>{How::plain, How::plain, How::copied, How::moved, How::args_copied});
                res[t].push_back({j, jobs[j].run(jobs[j].seed, h)});
                sched::beat();
            }
        });
        for (auto& t : th) t.join();
        for (auto& v : res) for (auto& x : v) {
            vh::expect(x.second == first[x.first], "same result beside other simulations", jobs[x.first].name, " in ", k, " threads, states ", first[x.first].states, " and ", x.second.states);
            vh::count("simulations beside others");
            vh::eval(vh::mix(x.second.hash) ^ vh::mix((uint64_t)c), true);
        }
        vh::count("crews");
        vh::maxi("threads", k);
    });
    delete dog;
}
