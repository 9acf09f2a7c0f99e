// PROP 2: momentum, centre of mass, angular momentum at every observed state (included by dyn.cpp)
// tidal bodies that do not touch; forces stay small next to gravity
template <class Solver>
auto tidal_particles(scen::Scenario const& s, vh::Rng& r) {
    auto ps = scen::particles_of<Solver>(s.b);
    if constexpr (requires_tide<typename Solver::Particle>::value) {
        L peri = s.a > 0 ? (s.e > 1 ? s.a / (1 + s.e) : s.a * (1 - s.e)) : 0.15L * min_sep(s.b), mm = 0;
        for (auto& q : s.b) mm = std::max(mm, q.m);
        for (auto& p : ps) {
            p.radius = (double)(r.u(0.2, 0.35) * peri) * std::cbrt((double)p.mass / (double)mm);
            p.tide_apsidal_const = r.chance(0.2) ? 0 : r.logu(0.01, 0.5);
            p.tide_lag_time = r.chance(0.2) ? 0 : r.logu(0.001, 0.05) * (double)sqrtl(peri * peri * peri / mm);
        }
    }
    return ps;
}
template <class Solver>
void momentum(Info in, int kind, vh::Rng& r) {
    using S = typename Solver::Scalar;
    bool drift = r.chance(0.6);
    auto s = scen::make(r, kind, drift, !in.extra || in.central, !in.extra && !(in.reg && kind == 0));
    V P0 = ref::momentum(s.b), L0 = ref::ang_mom(s.b), c0 = ref::com(s.b);
    L M = ref::mass(s.b);
    V vcom = P0 / M;
    long steps = 0, cap = in.fam == CONST ? 400 : in.order == 2 || in.order == 4 ? 800 : 3000;
    L vmax = 0, rmax = 0, wp = 0, wl = 0, wc = 0, t0 = r.chance(0.3) ? (L)r.u(-5, 5) : 0;
    t0 = (double)(t0 * s.unit);
    Solver sim(S(t0), tidal_particles<Solver>(s, r));
    typename Solver::RunArgs a;
    L fixed = 0, E0 = ref::energy(s.b), werr = 0;
    if (in.fam == CONST) {
        fixed = s.T / r.i(150, 350);
        a.step_size = S(fixed * (in.reg ? (L)sim.particles().step_scale() : 1));
    }
    a.add_operation([&](auto& p, auto) {
        ++steps;
        auto b = scen::bodies(p);
        vmax = std::max(vmax, max_speed(b)), rmax = std::max(rmax, max_dist(b));
        L k, u, E = ref::energy(b, &k, &u);
        werr = std::max(werr, fabsl(E - E0) / (k - u));
        L n = sqrtl((L)steps + 10) * b.size() * EPS;
        L t = (L)p.time();
        // rounding of each step relative to the largest values met; kicks during a close passage round relative to the speed there
        L kick = 0;
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) kick = std::max(kick, sqrtl(2 * (b[i].m + b[j].m) / ref::dist(b[i].r, b[j].r)));
        vmax = std::max(vmax, kick);
        L dp = ref::norm(ref::momentum(b) - P0) / (M * vmax * n);
        L dl = ref::norm(ref::ang_mom(b) - L0) / ((M * vmax * rmax) * n);
        L dc = ref::norm(ref::com(b) - c0 - vcom * (t - t0)) / ((rmax + vmax * fabsl(t - t0) + ref::norm(vcom) * fabsl(t)) * n);
        if (!(dp <= wp)) wp = dp;
        if (!(dl <= wl)) wl = dl;
        if (!(dc <= wc)) wc = dc;
        vh::eval(vh::mix(steps) ^ vh::hash_str(in.name) ^ vh::mix(vh::bits_of((double)b[0].r.x)));
    });
    a.add_stop_condition(S(t0 + s.T));
    a.add_stop_condition([&](auto&, auto) { return steps > cap; });
    try {
        sim.run(a);
    } catch (vh::Aborted const&) {
        vh::viol("run ended the program", cat(in.name, " ", s.name));
        return;
    }
    if (in.fam == CONST && !in.extra && !(werr < 1e-3L)) {  // a passage the fixed step does not resolve: kicks of any size cancel within a step
        vh::count("fixed-step runs not resolved");
        return;
    }
    std::string f = cat(in.fam == BS ? "BS" : in.fam == RADAU ? "Radau" : in.fam == CONST ? in.order == 15 ? "fixed Radau" : "fixed Sym" : "Sym", in.reg ? " regularised" : "", in.chain ? " chain" : "");
    vh::count(cat("runs ", f));
    vh::count(cat("scenario ", s.name));
    if (drift) vh::count("runs with drift");
    vh::count("steps", steps);
    if (in.extra) f += in.central ? ", tides" : ", pair forces";
    if (in.central) vh::count("runs with tides");
    const bool radau_fixed = in.order == 15;  // not symplectic: angular momentum is only as good as the energy
    auto hold = [&](const char* what, L units, L limit) {
        vh::maxi(cat("margin:", what, " ", f), (double)(units / limit));
        if (!(units <= limit)) vh::viol(cat(what, ", ", f), cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", s.b.size(), " ", steps, " steps: ", (double)units, " rounding units, allowed ", (double)limit));
    };
    const L strict = kind == 8 ? 100 : 40;
    hold("momentum", wp, strict);
    hold("centre of mass", wc, strict);
    if ((!in.extra || in.central) && (!radau_fixed || werr < 1e-13L)) hold("angular momentum", wl, in.fam == SYM || in.fam == CONST ? strict : 100);
    vh::sample(cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", s.b.size(), ": ", steps, " steps, drift in rounding units: momentum ", (double)wp, ", angular momentum ", (double)wl, ", centre of mass ", (double)wc));
}
