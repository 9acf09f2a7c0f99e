// PROP 3: observed states against the true solution (included by dyn.cpp).
// The reference runs in extended precision; the allowed difference is a fixed relative perturbation (of the size of the requested
// tolerance times a few hundred steps) amplified by the problem itself, measured by propagating perturbed reference solutions.
struct Seen { L t; std::vector<Body> b; L sep; };
inline bool advance(std::vector<Body>& b, L dt) {
    if (b.size() == 2) {
        V c = ref::com(b), u = ref::momentum(b) / ref::mass(b), r = b[1].r - b[0].r, v = b[1].v - b[0].v;
        L M = ref::mass(b);
        ref::kepler_advance(M, r, v, dt);
        c = c + u * dt;
        b[0].r = c - r * (b[1].m / M), b[1].r = c + r * (b[0].m / M);
        b[0].v = u - v * (b[1].m / M), b[1].v = u + v * (b[0].m / M);
        return true;
    }
    return ref::evolve(b, dt, nullptr, 1e-16L, 1e-3L * dt);
}
inline std::vector<Body> disturbed(std::vector<Body> b, vh::Rng& r, L eps) {
    for (auto& q : b) q.r += scen::iso(r) * (eps * ref::norm(q.r)), q.v += scen::iso(r) * (eps * ref::norm(q.v));
    return b;
}
static scen::Scenario const* g_fixed = nullptr;  // a given initial condition instead of a random one
template <class Solver>
void trajectory(Info in, int kind, vh::Rng& r) {
    using S = typename Solver::Scalar;
    bool drift = r.chance(0.3);
    auto s = scen::make(r, kind, drift, true, !(in.reg && kind == 0));
    if (g_fixed) s = *g_fixed;
    else if (r.chance(0.1)) s.T = (double)(ref::PI * r.u(0.5, 1.5) * s.unit);
    long steps = 0, cap = in.order == 2 ? 600 : in.order == 4 ? 1500 : 4000;
    Solver sim(S(0), scen::particles_of<Solver>(s.b));
    typename Solver::RunArgs a;
    std::vector<Seen> seen;
    a.add_operation([&](auto& p, auto) {
        ++steps;
        auto b = scen::bodies(p);
        seen.push_back({(L)p.time(), b, min_sep(b)});
    });
    a.add_stop_condition(S(s.T));
    a.add_stop_condition([&](auto&, auto) { return steps > cap; });
    try {
        sim.run(a);
    } catch (vh::Aborted const&) {
        vh::viol("run ended the program", cat(in.name, " ", s.name));
        return;
    }
    // observed states to check, in the order of time: a few for integrated references, many for Kepler orbits
    bool two = s.b.size() == 2;
    std::vector<size_t> pick;
    size_t want = two ? 60 : 2, n = seen.size();
    for (size_t i = 0; i < want; ++i) pick.push_back((size_t)r.i(1, n - 1));
    size_t closest = 0;
    for (size_t i = 0; i < n; ++i) if (seen[i].sep < seen[closest].sep) closest = i;
    pick.push_back(closest);
    pick.push_back(n - 1);
    std::sort(pick.begin(), pick.end(), [&](size_t x, size_t y) { return seen[x].t < seen[y].t; });
    const L eps = 1e-10L;
    std::vector<Body> main = s.b;
    std::vector<std::vector<Body>> off{disturbed(main, r, eps)};
    L t = 0, worst = 0, amp = 0;
    L limit = harsh(kind) && !in.reg ? 1e-10L : 4e-12L;
    if (kind == 8) limit = 2e-10L;
    if (in.fam == SYM && harsh(kind)) limit *= 4;
    // one scale for all variables judges the steps of the Gauss-Radau methods: in units where times or energies are large numbers
    // the regularised ones resolve the coordinates less well
    if (in.fam == RADAU && in.reg) limit *= s.unit != 1 ? 100 : 4;
    for (size_t i = 0; i < pick.size(); ++i) {
        Seen const& o = seen[pick[i]];
        L dt = o.t - t;
        bool ok = true;
        if (dt != 0) {
            ok = advance(main, dt);
            for (auto& q : off) ok = ok && advance(q, dt);
        }
        if (!ok) { vh::count("reference not available"); return; }
        t = o.t;
        L er = 0, ev = 0, sr = max_dist(main), sv = max_speed(main);
        // the clock itself is a rounded quantity
        for (size_t k = 0; k < main.size(); ++k) er = std::max(er, ref::dist(main[k].r, o.b[k].r)), ev = std::max(ev, ref::dist(main[k].v, o.b[k].v));
        for (auto& q : off) {
            L dr = 0, dv = 0;
            for (size_t k = 0; k < main.size(); ++k) dr = std::max(dr, ref::dist(main[k].r, q[k].r)), dv = std::max(dv, ref::dist(main[k].v, q[k].v));
            sr += dr / eps, sv += dv / eps;
        }
        // coordinates far larger than the separation of a close pair carry its rounding
        L ratio = 0;
        for (size_t k = 0; k <= pick[i]; ++k) ratio = std::max(ratio, (in.chain ? 0 : max_dist(seen[k].b)) / seen[k].sep);
        L lim = limit + 30 * EPS * ratio * sqrtl((L)pick[i] + 1);
        L accel = 0;
        for (size_t x = 0; x < main.size(); ++x) for (size_t y = 0; y < x; ++y) { L d = ref::dist(main[x].r, main[y].r); accel = std::max(accel, (main[x].m + main[y].m) / (d * d)); }
        sr += max_speed(main) * fabsl(t), sv += accel * fabsl(t);
        amp = std::max(amp, sr / max_dist(main));
        if (amp > 1e6L) {  // beyond this the perturbed references are not small any more
            vh::count("states dropped, chaotic", pick.size() - i);
            break;
        }
        L e = std::max(er / sr, ev / sv) / lim;
        if (!(e <= worst)) worst = e;
        vh::eval(vh::mix(pick[i]) ^ vh::hash_str(in.name) ^ vh::mix(vh::bits_of((double)o.b[0].r.x)));
        if (pick[i] == closest || off.size() < 3) off.push_back(disturbed(main, r, eps));
    }
    std::string k = cat(in.fam == BS ? "BS" : in.fam == RADAU ? "Radau" : cat("Sym", in.order), in.reg ? " regularised" : " plain", in.chain ? " chain" : "");
    vh::count(cat("runs ", k));
    vh::count(cat("scenario ", s.name));
    vh::count(two ? "states against Kepler" : "states against the integrated reference", pick.size());
    if (drift) vh::count("runs with drift");
    vh::maxi(cat("margin:trajectory ", k, ", ", s.name), (double)worst);
    vh::sample(cat(in.name, " ", s.name, " N=", s.b.size(), " e=", (double)s.e, ": ", steps, " steps, ", pick.size(), " states, error/allowed ", (double)worst, ", amplification up to ", (double)amp));
    if (!(worst <= 1)) vh::viol(cat("true trajectory, ", k), cat(in.name, " ", s.name, drift ? " drifting" : "", " N=", s.b.size(), " e=", (double)s.e, " error/allowed ", (double)worst, " amplification ", (double)amp));
}
