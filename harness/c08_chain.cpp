// C08: chain coordinates are a lossless nearest-neighbour relabelling.
#include "spaceHub.hpp"
#include "vh.hpp"
#include "ref.hpp"
using namespace hub;
using ref::L;
using ref::V;
static const L EPS = 0x1p-53L;

template <class Vec> static V val(Vec const& v) { return V((L)v.x, (L)v.y, (L)v.z); }
static L d2(V const& a, V const& b) { V d = a - b; return ref::dot(d, d); }

// is idx obtainable by: closest pair first, then always the closest remaining particle to either end? (ties to rounding allowed)
static std::string greedy_ok(std::vector<V> const& p, std::vector<size_t> const& idx, L slack) {
    size_t n = p.size();
    if (idx.size() != n) return vh::cat("index has ", idx.size(), " entries for ", n, " particles");
    std::vector<int> seen(n, 0);
    for (auto i : idx) { if (i >= n || seen[i]) return vh::cat("index is not a permutation (entry ", i, ")"); seen[i] = 1; }
    if (n < 2) return "";
    L smallest = INFINITY;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) smallest = std::min(smallest, d2(p[i], p[j]));
    std::vector<std::vector<char>> can(n, std::vector<char>(n, 0));
    auto le = [&](L a, L b) { return a <= b * (1 + slack); };
    bool any = false;
    for (size_t l = 0; l + 1 < n; ++l) if (le(d2(p[idx[l]], p[idx[l + 1]]), smallest)) { can[l][l + 1] = 1; any = true; }
    if (!any) return vh::cat("closest pair (distance ", sqrtl(smallest), ") is not a link of the chain");
    for (size_t len = 2; len < n; ++len) {
        any = false;
        for (size_t l = 0; l + len - 1 < n; ++l) {
            size_t r = l + len - 1;
            if (!can[l][r]) continue;
            L m = INFINITY;
            for (size_t k = 0; k < n; ++k) if (k < l || k > r) m = std::min({m, d2(p[idx[k]], p[idx[l]]), d2(p[idx[k]], p[idx[r]])});
            if (l > 0 && le(d2(p[idx[l - 1]], p[idx[l]]), m)) can[l - 1][r] = 1, any = true;
            if (r + 1 < n && le(d2(p[idx[r + 1]], p[idx[r]]), m)) can[l][r + 1] = 1, any = true;
        }
        if (!any) return vh::cat("no greedy extension after ", len, " of ", n, " particles");
    }
    return can[0][n - 1] ? "" : "chain is not greedy";
}
static std::vector<V> arrangement(vh::Rng& rng, int n, std::string& name) {
    std::vector<V> p;
    double off = rng.chance(0.3) ? rng.logu(1, 1e6) : 0;
    int kind = (int)rng.i(0, 5);
    static const char* names[] = {"cloud", "hierarchy", "line", "lattice", "shells", "ring"};
    name = names[kind];
    V c(off * rng.normal(), off * rng.normal(), off * rng.normal());
    for (int i = 0; i < n; ++i) {
        V q;
        if (kind == 0) q = V(rng.normal(), rng.normal(), rng.normal());
        if (kind == 1) {
            if (i == 0 || rng.chance(0.3)) q = V(rng.normal(), rng.normal(), rng.normal());
            else { L s = rng.logu(1e-6, 1); q = p[rng.i(0, i - 1)] - c + V(s * rng.normal(), s * rng.normal(), s * rng.normal()); }
        }
        if (kind == 2) q = V(rng.normal(), 0, 0);
        if (kind == 3) q = V((double)rng.i(-3, 3), (double)rng.i(-3, 3), (double)rng.i(-3, 3));
        if (kind == 4) { L s = rng.logu(1e-3, 1e3); V u(rng.normal(), rng.normal(), rng.normal()); q = u * (s / ref::norm(u)); }
        if (kind == 5) q = V(cosl(2 * ref::PI * i / n), sinl(2 * ref::PI * i / n), 0);
        if (kind == 3) {
            bool dup = false;
            for (auto& o : p) if (d2(o - c, q) < 1e-6L) dup = true;
            if (dup) q = q + V(10 * (i + 1), 0, 0);
            c = V(std::round(c.x), std::round(c.y), std::round(c.z));
        }
        p.push_back(c + q);
    }
    return p;
}
template <class Ty>
static void one(vh::Rng& rng, const char* tname) {
    using Vec = typename Ty::StateVector;  // as the systems hold them: with their compensation, where there is one
    using Arr = typename Ty::StateVectorArray;
    using Idx = typename Ty::IdxArray;
    using S = typename Ty::Scalar;
    L u = std::is_same_v<S, long double> ? 0x1p-64L : EPS;
    int n = rng.chance(0.1) ? 2 : rng.chance(0.1) ? (int)rng.i(20, 60) : (int)rng.i(3, 12);
    std::string kind;
    auto pl = arrangement(rng, n, kind);
    Arr pos;
    std::vector<V> p;
    L pmax = 0;
    for (auto& q : pl) {
        pos.emplace_back(Vec(S((double)q.x), S((double)q.y), S((double)q.z)));
        p.push_back(val(pos[pos.size() - 1]));
        pmax = std::max(pmax, ref::norm(p.back()));
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (d2(p[i], p[j]) == 0) return;
    vh::eval(rng.next());
    vh::count(vh::cat("arrangements ", kind));
    Idx idx;
    if (rng.chance(0.5)) for (int k = (int)rng.i(1, 5); k > 0; --k) idx.emplace_back(99);  // stale contents
    Chain::calc_chain_index(pos, idx);
    std::vector<size_t> ix(idx.begin(), idx.end());
    auto why = greedy_ok(p, ix, 32 * EPS);
    vh::expect(why.empty(), "chain index", tname, " ", kind, " N=", n, ": ", why);
    vh::count("indices checked");
    if (!why.empty()) return;
    // coordinates -> chain: every link is the difference rounded once
    Arr ch(n), back(n);
    Chain::calc_chain(pos, ch, idx);
    for (int i = 0; i + 1 < n; ++i) {
        V want = p[ix[i + 1]] - p[ix[i]], got = val(ch[i]);
        for (auto [g, w] : {std::pair(got.x, want.x), std::pair(got.y, want.y), std::pair(got.z, want.z)})
            vh::expect(fabsl(g - w) <= 1.01L * u * fabsl(w), "chain link", tname, " ", kind, " N=", n, " link ", i, " got ", g, " want ", w);
    }
    vh::expect(ref::dist(val(ch[n - 1]), p[ix[0]]) == 0, "chain anchor", tname, " N=", n);
    std::vector<S> mass(n, S(1));
    typename Ty::ScalarArray mm(n);
    for (int i = 0; i < n; ++i) mm[i] = rng.logu(1e-3, 1e3);
    Chain::calc_cartesian(mm, ch, back, idx);
    for (int i = 0; i < n; ++i) vh::close(ref::dist(val(back[i]), p[i]), 0.0L, 4 * u * n * pmax + 1e-300L, "chain round trip", vh::cat(tname, " ", kind, " N=", n));
    // moving an existing chain onto any other index equals building it from scratch
    Idx ni;
    for (int i = 0; i < n; ++i) ni.emplace_back(i);
    int how = (int)rng.i(0, 3);
    if (how == 0) for (int i = n - 1; i > 0; --i) std::swap(ni[i], ni[rng.i(0, i)]);
    else if (how == 1) for (int i = 0; i < n; ++i) ni[i] = ix[n - 1 - i];
    else if (how == 2) { for (int i = 0; i < n; ++i) ni[i] = ix[i]; int a = (int)rng.i(0, n - 1), b = (int)rng.i(0, n - 1); if (a > b) std::swap(a, b); std::reverse(ni.begin() + a, ni.begin() + b + 1); }
    else {  // particles have moved: a genuinely new greedy index
        Arr moved = pos;
        for (auto& q : moved) { q.x += S(0.5 * rng.normal()); q.y += S(0.5 * rng.normal()); q.z += S(0.5 * rng.normal()); }
        Chain::calc_chain_index(moved, ni);
    }
    if (rng.chance(0.5)) for (int i = 0; i < n; ++i) {  // links that have been advanced, and hold something back
        Vec q(S(0.3 * u * (double)ch[i].x), S(-0.2 * u * (double)ch[i].y), S(0.4 * u * (double)ch[i].z));
        ch[i] += q;
    }
    Arr upd = ch, direct(n);
    Chain::update_chain(upd, pos, idx, ni);
    Chain::calc_chain(pos, direct, ni);
    vh::expect(upd.size() == (size_t)n, "re-linked chain size", tname, " N=", n, " got ", upd.size());
    L smax = 0;
    for (int i = 0; i + 1 < n; ++i) smax = std::max(smax, ref::norm(val(ch[i])));
    for (int i = 0; i + 1 < n; ++i) {
        vh::close(ref::dist(val(upd[i]), val(direct[i])), 0.0L, 8 * u * n * smax + 1e-300L, "re-linked chain", vh::cat(tname, " ", kind, " N=", n, " link ", i));
    }
    vh::expect(ref::dist(val(upd[n - 1]), p[ni[0]]) == 0, "re-linked chain anchor", tname, " N=", n);
    // what the links hold back must not come out with the next increment
    
    for (auto* c : {&ch, &upd, &direct, &back})
        for (int i = 0; i < n; ++i) {
            Vec x = (*c)[i];
            x += Vec(S(0), S(0), S(0));
            L d = ref::dist(val(x), val((*c)[i]));
            
            vh::close(d, 0.0L, 8 * u * n * std::max(smax, pmax) + 1e-300L, "increment of zero after a transfer", vh::cat(tname, " ", kind, " N=", n, " entry ", i));
        }
    vh::count("held back parts checked");
    vh::count(how == 0 ? "re-link random" : how == 1 ? "re-link reversed" : how == 2 ? "re-link segment" : "re-link moved");
}
// evolving systems: the chain stays consistent with the particles and is re-linked greedily
template <class Sys>
static void consistent(Sys& s, const char* form, bool index_fresh, L hist) {
    size_t n = s.number();
    std::vector<V> p, v;
    for (size_t i = 0; i < n; ++i) { p.push_back(val(s.pos(i))); v.push_back(val(s.vel(i))); }
    std::vector<size_t> ix(s.index().begin(), s.index().end());
    if (index_fresh) {
        auto why = greedy_ok(p, ix, 1e-6L);
        vh::expect(why.empty(), "system chain index", form, " N=", n, ": ", why);
        if (!why.empty()) return;
    }
    L pm = hist, vm = hist;
    for (size_t i = 0; i < n; ++i) { pm = std::max(pm, ref::norm(p[i])); vm = std::max(vm, ref::norm(v[i])); }
    for (size_t i = 0; i + 1 < n; ++i) {
        vh::close(ref::dist(val(s.chain_pos(i)), p[ix[i + 1]] - p[ix[i]]), 0.0L, 64 * EPS * n * pm, "system chain positions", form);
        vh::close(ref::dist(val(s.chain_vel(i)), v[ix[i + 1]] - v[ix[i]]), 0.0L, 64 * EPS * n * vm, "system chain velocities", form);
    }
    vh::close(ref::dist(val(s.chain_pos(n - 1)), p[ix[0]]), 0.0L, 64 * EPS * n * pm, "system chain positions", form);
    vh::close(ref::dist(val(s.chain_vel(n - 1)), v[ix[0]]), 0.0L, 64 * EPS * n * vm, "system chain velocities", form);
    vh::count("system states");
}
struct Weak {
    static constexpr bool vel_dependent = true;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); ++i) a[i] += -0.01 * p.vel(i); }
};
template <template <class, class> class SysT, class Ty, class I>
static void evolve(vh::Rng& rng, const char* form) {
    using Sys = SysT<particles::PointParticles<Ty>, I>;
    using Part = typename Sys::Particle;
    using S = typename Ty::Scalar;
    using Vec = typename Ty::Vector;
    int n = (int)rng.i(2, 8);
    std::vector<Part> ps;
    for (int i = 0; i < n; ++i) ps.push_back(Part(S(rng.logu(1e-2, 1)), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal())), Vec(S(rng.normal()), S(rng.normal()), S(rng.normal()))));
    Sys s(S(0), ps);
    consistent(s, form, true, 0);
    std::vector<size_t> last(s.index().begin(), s.index().end());
    L hist = 0;
    for (int k = 0; k < 40; ++k) {
        s.pre_iter_process();
        double h = 0.05 * (double)s.step_scale();
        s.drift(S(h / 2));
        s.kick(S(h));
        s.drift(S(h / 2));
        // unphysical random kicks are fine here, but the comparison needs bounded numbers
        for (int i = 0; i < n; ++i) hist = std::max({hist, ref::norm(val(s.pos(i))), ref::norm(val(s.vel(i)))});
        if (!(hist < 1e3)) { vh::count("close encounter, stopped"); return; }
        consistent(s, form, false, hist * (k + 1));
        s.post_iter_process();
        consistent(s, form, true, hist * (k + 1));
        std::vector<size_t> now(s.index().begin(), s.index().end());
        if (now != last) vh::count("re-links in systems");
        last = now;
    }
    vh::eval(rng.next());
}
template <class P, class I> using Chain_ = system::ChainSystem<P, I>;
template <class P, class I> using ARC = system::ARchainSystem<P, I>;
void vh_main() {
    vh::cases("double", vh::scale(20000, 600000), [](vh::Rng& r, long) { one<Types<double, Vec3>>(r, "double"); });
    vh::cases("compensated", vh::scale(5000, 100000), [](vh::Rng& r, long) { one<Types<double_k, Vec3>>(r, "double_k"); });
    vh::cases("long double", vh::scale(5000, 100000), [](vh::Rng& r, long) { one<Types<long double, Vec3>>(r, "long double"); });
    vh::cases("systems", vh::scale(400, 10000), [](vh::Rng& r, long) {
        using N = force::Interactions<force::NewtonianGrav>;
        using W = force::Interactions<force::NewtonianGrav, Weak>;
        evolve<Chain_, Types<double, Vec3>, N>(r, "chain");
        evolve<Chain_, Types<double_k, Vec3>, W>(r, "compensated chain with drag");
        evolve<ARC, Types<double, Vec3>, W>(r, "regularised chain with drag");
        evolve<ARC, Types<double_k, Vec3>, N>(r, "compensated regularised chain");
    });
}
