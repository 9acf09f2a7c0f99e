// C07: output files are a complete and faithful record of what a run showed.
#include "vh_abort.hpp"
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using ref::V;
using callback::DefaultWriter;
using callback::EnergyErrWriter;
using F = force::Interactions<force::NewtonianGrav>;

struct Row { std::map<std::string, L> v; };
struct State {
    std::vector<Row> rows;
    L t, T, U, bind = 0, Uerr = 0;  // Uerr: how far rounding of positions and chain links reaches the potential energy
    bool regu = false;
};
template <class S, class = void> struct has_bind : std::false_type {};
template <class S> struct has_bind<S, std::void_t<decltype(std::declval<S&>().bindE()), decltype(S::regu_type)>> : std::true_type {};

template <class Sys>
static State snap(Sys const& s) {
    State st;
    st.t = (L)s.time();
    std::vector<ref::Body> b;
    for (size_t i = 0; i < s.number(); ++i) {
        Row r;
        auto p = s.pos(i), v = s.vel(i);
        r.v = {{"time", (L)s.time()}, {"id", (L)s.idn(i)}, {"mass", (L)s.mass(i)}, {"px", (L)p.x}, {"py", (L)p.y}, {"pz", (L)p.z}, {"vx", (L)v.x}, {"vy", (L)v.y}, {"vz", (L)v.z}};
        using P = typename Sys::Particle;
        using Vec = typename Sys::Vector;
        if constexpr (std::is_base_of_v<particles::SizeParticle<Vec>, P>) r.v["radius"] = (L)s.radius(i);
        if constexpr (std::is_same_v<particles::TideParticle<Vec>, P>) r.v["radius"] = (L)s.radius(i), r.v["k_AM"] = (L)s.tide_apsidal_const(i), r.v["tau_lag"] = (L)s.tide_lag_time(i);
        if constexpr (std::is_same_v<particles::DragParticle<Vec>, P>) r.v["sub_sonic_c"] = (L)s.sub_sonic_c(i), r.v["local_cs"] = (L)s.local_cs(i);
        st.rows.push_back(r);
        b.push_back({(L)s.mass(i), V{(L)p.x, (L)p.y, (L)p.z}, V{(L)v.x, (L)v.y, (L)v.z}});
    }
    ref::energy(b, &st.T, &st.U);
    L far = 0;
    for (auto& q : b) far = std::max(far, ref::norm(q.r));
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < i; ++j) { L d = ref::norm(b[i].r - b[j].r); st.Uerr += b[i].m * b[j].m / (d * d) * 8 * 0x1p-53L * b.size() * far; }
    if constexpr (has_bind<Sys>::value) st.regu = true, st.bind = (L)s.bindE();
    return st;
}
static std::vector<std::string> split(std::string const& l) {
    std::vector<std::string> o;
    std::stringstream ss(l);
    std::string w;
    while (std::getline(ss, w, ',')) o.push_back(w);
    if (!l.empty() && l.back() == ',') o.push_back("");
    return o;
}
static std::vector<std::string> lines(std::string const& file) {
    std::ifstream f(file);
    std::vector<std::string> o;
    std::string l;
    while (std::getline(f, l)) {
        bool blank = l.find_first_not_of(" \t\r") == std::string::npos;
        if (!blank) o.push_back(l);
    }
    return o;
}
static bool number(std::string const& s, L& x, bool ext) {
    char* e;
    if (s.empty()) return false;
    x = ext ? strtold(s.c_str(), &e) : (L)strtod(s.c_str(), &e);
    return *e == 0;
}
// the file holds exactly these states
static void check_states(std::string const& file, std::vector<State> const& st, L rel, std::string const& ctx, std::vector<std::string> comments = {}) {
    auto ls = lines(file);
    for (auto& c : comments) {
        auto it = std::find(ls.begin(), ls.end(), c);
        if (vh::expect(it != ls.end(), "text written through the writer is in the file", c, " ", ctx)) ls.erase(it);
    }
    if (st.empty()) { vh::expect(ls.size() == 0, "a writer that saw nothing wrote nothing", ctx, " lines ", ls.size()); return; }
    size_t want = 0;
    for (auto& s : st) want += s.rows.size();
    if (!vh::expect(ls.size() == want + 1, "one header and one row per particle per state", ctx, " lines ", ls.size(), " wanted 1+", want)) return;
    auto head = split(ls[0]);
    std::set<std::string> names(head.begin(), head.end());
    vh::expect(names.size() == head.size(), "column names are distinct", ctx, " ", ls[0]);
    for (auto& kv : st[0].rows[0].v) vh::expect(names.count(kv.first), "every quantity has a column", kv.first, " in ", ls[0], " ", ctx);
    size_t k = 1;
    for (auto& s : st)
        for (auto& r : s.rows) {
            auto w = split(ls[k++]);
            if (!vh::expect(w.size() == head.size(), "as many columns as the header names", ctx, " line ", k, ": ", w.size(), " of ", head.size())) return;
            for (size_t c = 0; c < w.size(); ++c) {
                auto it = r.v.find(head[c]);
                if (it == r.v.end()) continue;
                L x = 0;
                bool ok = number(w[c], x, rel > 0);
                vh::count("numbers read back");
                if (!vh::expect(ok && (std::fabs(x - it->second) <= rel * std::fabs(it->second)), "numbers read back", head[c], " read '", w[c], "' recorded ", it->second, " line ", k, " ", ctx)) return;
            }
            vh::count("rows read back");
        }
    vh::count("files read back");
}
static void check_energy(std::string const& file, std::vector<State> const& st, L rel, std::string const& ctx, std::vector<std::string> comments = {}) {
    auto ls = lines(file);
    for (auto& c : comments) {
        auto it = std::find(ls.begin(), ls.end(), c);
        if (!vh::expect(it != ls.end(), "text streamed into the energy writer is in its file", c, " ", ctx)) return;
        ls.erase(it);
        vh::count("texts in energy files");
    }
    if (!vh::expect(ls.size() == st.size(), "one energy error per state", ctx, " lines ", ls.size(), " wanted ", st.size())) return;
    if (st.empty()) return;
    L E0 = st[0].T + st[0].U;
    for (size_t i = 0; i < st.size(); ++i) {
        auto& s = st[i];
        auto w = split(ls[i]);
        L t = 0, e = 0;
        bool ok = w.size() == 2 && number(w[0], t, rel > 0) && number(w[1], e, rel > 0);
        if (!vh::expect(ok && fabsl(t - s.t) <= rel * fabsl(s.t), "energy rows carry the time of the state", ls[i], " ", ctx)) return;
        vh::count("energy rows");
        if (s.regu) {
            // logarithmic Hamiltonian: ln((T + B) / U), with B minus the energy the run started with
            if (s.T - E0 > -1e6L * s.U) continue;
            L want = logl(fabsl((s.T - E0) / s.U)), tol = (2e-14L * (s.T - s.U + st[0].T - st[0].U) + s.Uerr + st[0].Uerr) / std::min(-s.U, fabsl(s.T - E0));
            vh::maxi("margin: regularised energy error", (double)(fabsl(e - want) / tol));
            if (!vh::expect(fabsl(e - want) <= tol, "energy rows carry the relative error of this run (regularised)", "row ", i, " '", ls[i], "' want ", want, " tol ", tol, " ", ctx)) return;
        } else {
            L want = fabsl((s.T + s.U - E0) / E0), tol = (2e-14L * (s.T - s.U + st[0].T - st[0].U) + s.Uerr + st[0].Uerr) / fabsl(E0) + 1e-13L * want;
            vh::maxi("margin: energy error", (double)(fabsl(e - want) / tol));
            if (!vh::expect(fabsl(e - want) <= tol, "energy rows carry the relative error of this run", "row ", i, " '", ls[i], "' want ", want, " tol ", tol, " ", ctx)) return;
        }
    }
    vh::count("energy files");
}
template <class P, class S, class Vec>
static P make(vh::Rng& rng, S m, Vec p, Vec v, double mag = 0) {
    auto x = [&] { return mag ? S(rng.logu(1 / mag, mag)) : S(rng.logu(1e-4, 1)); };
    if constexpr (std::is_same_v<P, particles::TideParticle<Vec>>) return P(m, x(), x(), x(), p, v);
    else if constexpr (std::is_same_v<P, particles::SizeParticle<Vec>>) return P(m, x(), p, v);
    else if constexpr (std::is_same_v<P, particles::DragParticle<Vec>>) return P(m, x(), x(), p, v);
    else return P(m, p, v);
}
static std::string file(std::string const& tag) {
    static std::atomic<long> n{0};
    return vh::S().scratch + "/c07_" + std::to_string(getpid()) + "_" + std::to_string(n++) + tag;
}
// extreme values, written directly
template <class Sys>
static void extreme(vh::Rng& rng, std::string form) {
    using P = typename Sys::Particle;
    using S = typename Sys::Scalar;
    using Vec = typename Sys::Vector;
    const L rel = std::is_same_v<S, long double> ? 6e-17L : 0;
    int n = (int)rng.i(2, rng.chance(0.1) ? 120 : 7);
    double mag = rng.chance(0.3) ? 1e300 : rng.chance(0.5) ? 1e12 : 1e3;
    auto val = [&] { return rng.chance(0.05) ? S(0) : rng.chance(0.1) ? S((double)rng.i(-5, 5)) : S(rng.sign() * rng.logu(1 / mag, mag)); };
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) ps.push_back(make<P, S, Vec>(rng, S(rng.logu(1e-3, 1)), Vec(S(i), S(rng.normal()), S(rng.normal())), Vec(S(0), S(0), S(0)), mag));
    Sys s(S(0), ps);
    std::string f1 = file("a.txt");
    std::vector<State> st;
    {
        DefaultWriter w(f1), w2(w);
        int k = (int)rng.i(0, 6);
        for (int i = 0; i < k; ++i) {
            s.time() = val();
            for (size_t j = 0; j < s.number(); ++j) {
                s.mass(j) = S(rng.logu(1 / mag, mag));
                s.pos(j) = Vec(val(), val(), val());
                s.vel(j) = Vec(val(), val(), val());
                if (rng.chance(0.2)) s.idn(j) = rng.i(0, 1000000);
            }
            st.push_back(snap(s));
            (rng.chance(0.5) ? w : w2)(s, S(1));
        }
    }
    vh::eval(rng.next());
    vh::count("direct " + form);
    check_states(f1, st, rel, form + " direct");
    unlink(f1.c_str());
}
// one simulation with everything attached
struct Attached {
    std::string def, err, def2;
    std::vector<State> all, sliced;
    std::vector<std::string> comments, err_comments;
    std::string form;
    L rel;
    void check() {
        check_states(def, all, rel, form, comments);
        check_energy(err, all, std::max<L>(rel, 0), form, err_comments);
        check_states(def2, sliced, rel, form + " sliced");
        for (auto* f : {&def, &err, &def2}) unlink(f->c_str());
    }
};
struct AnySim {
    virtual void leg(vh::Rng&) = 0;
    virtual void close() = 0;
    Attached a;
    virtual ~AnySim() = default;
};
template <class Solver>
struct OneSim : AnySim {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    std::unique_ptr<Solver> sim;
    std::unique_ptr<DefaultWriter> w, w2;
    std::unique_ptr<EnergyErrWriter> e;
    L t;
    OneSim(vh::Rng& rng, std::string form) {
        a.form = form;
        a.rel = std::is_same_v<S, long double> ? 6e-17L : 0;
        int n = (int)rng.i(2, 5);
        std::vector<P> ps;
        for (int i = 0; i < n; ++i)
            for (;;) {
                Vec p(S(2 * rng.normal()), S(2 * rng.normal()), S(2 * rng.normal()));
                bool ok = true;
                for (auto& q : ps) ok = ok && (double)norm(q.pos - p) > 0.5;
                if (!ok) continue;
                ps.push_back(make<P, S, Vec>(rng, S(rng.logu(0.1, 1)), p, Vec(S(0.3 * rng.normal()), S(0.3 * rng.normal()), S(0.3 * rng.normal()))));
                break;
            }
        t = rng.chance(0.5) ? 0 : (L)rng.u(-3, 3);
        sim = std::make_unique<Solver>(S(t), ps);
        a.def = file("d.txt"), a.err = file("e.txt"), a.def2 = file("s.txt");
        w = std::make_unique<DefaultWriter>(a.def);
        w2 = std::make_unique<DefaultWriter>(a.def2);
        e = std::make_unique<EnergyErrWriter>(a.err);
    }
    void leg(vh::Rng& rng) override {
        typename Solver::RunArgs args;
        int order = (int)rng.i(0, 2);
        auto rec = [this](auto& p, auto) { a.all.push_back(snap(p)); };
        auto srec = [this](auto& p, auto) { a.sliced.push_back(snap(p)); };
        if (order == 0) args.add_operation(rec);
        args.add_operation(*w);
        if (order == 1) args.add_operation(rec);
        args.add_operation(*e);
        if (order == 2) args.add_operation(rec);
        int kind = (int)rng.i(0, 3);
        if (kind == 0) {
            long n = rng.i(2, 6);
            args.add_operation(callback::StepSlice(*w2, n));
            args.add_operation(callback::StepSlice(srec, n));
        } else if (kind == 1) {
            S b = S(t), c = S(t + 0.3);
            args.add_operation(callback::TimeSlice(*w2, b, c, 7));
            args.add_operation(callback::TimeSlice(srec, b, c, 7));
        } else if (kind == 2) {
            args.add_start_point_operation(*w2);
            args.add_start_point_operation(srec);
            args.add_stop_point_operation(*w2);
            args.add_stop_point_operation(srec);
        }
        t += rng.u(0.05, 0.4);
        if (fabsl(t) < 0.01) t = 0.05;
        args.add_stop_condition(S(t));
        args.rtol = 1e-9;
        try { sim->run(args); } catch (vh::Aborted) { vh::expect(false, "a run is not given up", a.form); }
        if (rng.chance(0.3)) {
            std::string c = "# leg " + std::to_string(rng.i(0, 1000000000));
            *w << c << '\n';
            a.comments.push_back(c);
        }
        if (rng.chance(0.3)) {
            std::string c = "# energies " + std::to_string(rng.i(0, 1000000000));
            *e << c << '\n';
            a.err_comments.push_back(c);
        }
        vh::count("legs " + a.form);
    }
    void close() override { w.reset(); w2.reset(); e.reset(); }
};
using particles::DragParticles;
using particles::SizeParticles;
using particles::TideParticles;
static std::unique_ptr<AnySim> pick(vh::Rng& rng) {
#define SIM(...) std::make_unique<OneSim<__VA_ARGS__>>(rng, #__VA_ARGS__)
    switch (rng.i(0, 5)) {
#if PART == 1
        case 0: return SIM(methods::DefaultMethod<F>);
        case 1: return SIM(methods::BS<F, SizeParticles>);
        case 2: return SIM(methods::Const_Sym4<F, TideParticles>);
        case 3: return SIM(methods::Chain_Sym6<F, DragParticles>);
        case 4: return SIM(methods::AR_Sym4_Plus<F>);
        default: return SIM(methods::Chain_BS_Plus<F>);
#else
        case 0: return SIM(methods::AR_BS_Ext<F>);
        case 1: return SIM(methods::Radau<F>);
        case 2: return SIM(methods::Sym4_Ext<F>);
        case 3: return SIM(methods::AR_Sym6_Chain<F, SizeParticles>);
        case 4: return SIM(methods::BS_Plus<F, DragParticles>);
        default: return SIM(methods::Const_AR_Sym4_Chain<F, TideParticles>);
#endif
    }
}
static void several(vh::Rng& rng, long) {
    std::vector<std::unique_ptr<AnySim>> sims;
    int n = (int)rng.i(1, 4), legs = (int)rng.i(1, 3 * n);
    for (int i = 0; i < n; ++i) sims.push_back(pick(rng));
    for (int l = 0; l < legs; ++l) sims[rng.i(0, n - 1)]->leg(rng);
    for (auto& s : sims) s->close();
    vh::eval(rng.next());
    vh::count("simulations side by side", n > 1);
    for (auto& s : sims) s->a.check();
}
static void threads(vh::Rng& rng, long) {
    const int n = 6;
    std::vector<std::unique_ptr<AnySim>> sims(n);
    std::vector<std::thread> th;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(rng.next());
    for (int i = 0; i < n; ++i)
        th.emplace_back([&, i] {
            vh::Rng r(seeds[i]);
            sims[i] = pick(r);
            int legs = (int)r.i(1, 3);
            for (int l = 0; l < legs; ++l) sims[i]->leg(r);
            sims[i]->close();
        });
    for (auto& t : th) t.join();
    vh::eval(rng.next());
    vh::count("simulations in parallel threads", n);
    for (auto& s : sims) s->a.check();
}
void vh_main() {
    using D = Types<double, Vec3>;
    using K = Types<double_k, Vec3>;
    using X = Types<long double, Vec3>;
    long n = vh::scale(1200, 20000), nx = vh::scale(1500, 20000);
#define EXT(SYS, PT, TY, NAME) vh::cases("extreme " NAME, nx, [](vh::Rng& r, long) { extreme<system::SYS<particles::PT<TY>, F>>(r, NAME); });
#if PART == 1
    EXT(SimpleSystem, PointParticles, D, "point double")
    EXT(SimpleSystem, SizeParticles, D, "size double")
    EXT(SimpleSystem, TideParticles, K, "tide double_k")
    EXT(SimpleSystem, DragParticles, D, "drag double")
    EXT(ChainSystem, PointParticles, K, "chain point double_k")
#else
    EXT(SimpleSystem, PointParticles, X, "point long double")
    EXT(ARchainSystem, TideParticles, D, "archain tide double")
    EXT(RegularizedSystem, DragParticles, X, "regu drag long double")
#endif
    vh::cases("several", n, several);
    vh::cases("threads", n / 10, threads);
}
