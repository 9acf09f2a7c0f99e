// C21: particle collections and the small-buffer vector, judged against std::vector models after every operation.
#include "spaceHub.hpp"
#include <deque>
#include <list>
#include <memory>
#include <set>
#include "vh.hpp"
using namespace hub;
using vh::Rng;

// ---------------------------------------------------------------- element types
struct Tracked {  // non-trivial; every live object registers its address
    static std::set<void const*>& live() { static std::set<void const*> s; return s; }
    static long& bad() { static long b = 0; return b; }
    int v;
    std::unique_ptr<int> heap;  // makes a bitwise copy or a missed destructor visible to the sanitizers too
    void born() { if (!live().insert(this).second) bad()++; }
    void check() const { if (!live().count(this)) bad()++; }
    Tracked() : v(0), heap(new int(0)) { born(); }
    Tracked(int x) : v(x), heap(new int(x)) { born(); }
    Tracked(Tracked const& o) : v(o.v), heap(new int(o.v)) { o.check(); born(); }
    Tracked(Tracked&& o) noexcept : v(o.v), heap(std::move(o.heap)) { o.check(); o.v = -999; born(); }
    Tracked& operator=(Tracked const& o) { check(); o.check(); v = o.v; heap.reset(new int(o.v)); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { check(); o.check(); if (this != &o) { v = o.v; heap = std::move(o.heap); o.v = -999; } return *this; }
    ~Tracked() { if (!live().erase(this)) bad()++; }
    bool operator==(Tracked const& o) const { return v == o.v; }
    bool operator<(Tracked const& o) const { return v < o.v; }
};
struct Pod { int a; double b; char c[5]; bool operator==(Pod const& o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 5); } bool operator<(Pod const& o) const { return a < o.a; } };

template <class T> T make(Rng& r) {
    int x = (int)r.i(1, 1000000);
    if constexpr (std::is_same_v<T, std::string>) return std::string((size_t)r.i(0, 40), (char)('a' + x % 26)) + std::to_string(x);
    else if constexpr (std::is_same_v<T, Pod>) { Pod p{}; p.a = x; p.b = x * 0.5; memset(p.c, x % 100, 5); return p; }
    else if constexpr (std::is_same_v<T, Vec3<double>>) return T(x, x + 0.5, -x);
    else return T(x);
}
template <class T> bool same(T const& a, T const& b) {
    if constexpr (std::is_same_v<T, Vec3<double>>) return a.x == b.x && a.y == b.y && a.z == b.z;
    else if constexpr (std::is_same_v<T, Tracked>) return a.v == b.v && a.heap && b.heap && *a.heap == *b.heap;
    else return a == b;
}

template <class T, unsigned N>
struct Pair {
    llvm::SmallVector<T, N> s;
    std::vector<T> m;
};

template <class T, unsigned N>
bool agree(Pair<T, N> const& p, std::string const& name, std::string const& op) {
    std::string k = "vector differs from std::vector (" + name + ") after " + op;
    if (!vh::expect(p.s.size() == p.m.size(), k, "size ", p.s.size(), " want ", p.m.size())) return false;
    vh::expect(p.s.empty() == p.m.empty(), k, "empty()");
    vh::expect((size_t)(p.s.end() - p.s.begin()) == p.m.size(), k, "iterator distance");
    vh::expect(p.s.capacity() >= p.s.size(), k, "capacity below size");
    bool ok = true;
    for (size_t i = 0; i < p.m.size(); ++i) ok = ok && same(p.s[i], p.m[i]) && same(*(p.s.begin() + i), p.m[i]) && same(p.s.data()[i], p.m[i]) && same(*(p.s.rend() - 1 - i), p.m[i]);
    if (!p.m.empty()) ok = ok && same(p.s.front(), p.m.front()) && same(p.s.back(), p.m.back());
    vh::expect(ok, k, "contents, size ", p.m.size(), " capacity ", p.s.capacity());
    return ok;
}

template <class T, unsigned N>
void vector_case(Rng& r, std::string const& name) {
    size_t before = 0;
    if constexpr (std::is_same_v<T, Tracked>) before = Tracked::live().size();
    std::string trace;
    {
        auto a = std::make_unique<Pair<T, N>>(), b = std::make_unique<Pair<T, N>>();
        int nops = (int)r.i(5, 60);
        long top = r.pick(std::vector<long>{3, 6, 18, 40});
        for (int o = 0; o < nops; ++o) {
            auto& s = a->s; auto& m = a->m;
            std::string op;
            size_t n = m.size();
            bool full_before = s.size() == s.capacity();
            bool alias = n > 0 && r.chance(0.3);
            size_t ai = n ? (size_t)r.i(0, n - 1) : 0;
            size_t at = (size_t)r.i(0, n);
            T const* old_data = s.data();
            size_t old_cap = s.capacity();
            T val = make<T>(r);
            int what = (int)r.i(0, 29);
            if ((long)n > top) what = r.chance(0.5) ? 5 : 8;
            bool may_move = false;
            switch (what) {
                case 0: case 1: op = "push_back";
                    if (alias) { s.push_back(s[ai]); T c = m[ai]; m.push_back(c); } else { s.push_back(val); m.push_back(val); }
                    break;
                case 2: op = "push_back(move)"; { T c = val; s.push_back(std::move(c)); m.push_back(val); } alias = false; break;
                case 3: case 4: op = "emplace_back";
                    if (alias) { s.emplace_back(s[ai]); T c = m[ai]; m.emplace_back(c); } else { s.emplace_back(val); m.emplace_back(val); }
                    break;
                case 5: op = "erase(range)"; { alias = false; size_t hi = (size_t)r.i(at, n); auto it = s.erase(s.begin() + at, s.begin() + hi); auto im = m.erase(m.begin() + at, m.begin() + hi);
                    vh::expect(it - s.begin() == im - m.begin(), "vector returns the wrong iterator from erase"); } break;
                case 6: if (!n) continue; alias = false; op = "pop_back"; s.pop_back(); m.pop_back(); break;
                case 7: if (!n) continue; alias = false; op = "pop_back_val"; { T x = s.pop_back_val(); vh::expect(same(x, m.back()), "vector pop_back_val returns the wrong element"); m.pop_back(); } break;
                case 8: if (!n) continue; alias = false; op = "erase"; { auto it = s.erase(s.begin() + ai); auto im = m.erase(m.begin() + ai);
                    vh::expect(it - s.begin() == im - m.begin(), "vector returns the wrong iterator from erase"); } break;
                case 9: case 10: op = "insert"; {
                    if (alias) { auto it = s.insert(s.begin() + at, s[ai]); T c = m[ai]; m.insert(m.begin() + at, c); vh::expect((size_t)(it - s.begin()) == at, "vector returns the wrong iterator from insert"); }
                    else { auto it = s.insert(s.begin() + at, (T const&)val); m.insert(m.begin() + at, val); vh::expect((size_t)(it - s.begin()) == at, "vector returns the wrong iterator from insert"); } } break;
                case 11: op = "insert(move)"; alias = false; { T c = val; auto it = s.insert(s.begin() + at, std::move(c)); m.insert(m.begin() + at, val); vh::expect((size_t)(it - s.begin()) == at, "vector returns the wrong iterator from insert"); } break;
                case 12: case 13: op = "insert(n)"; { size_t k = (size_t)r.i(0, 7);
                    typename llvm::SmallVector<T, N>::iterator it;
                    if (alias) { it = s.insert(s.begin() + at, k, s[ai]); T c = m[ai]; m.insert(m.begin() + at, k, c); }
                    else { it = s.insert(s.begin() + at, k, val); m.insert(m.begin() + at, k, val); }
                    vh::expect((size_t)(it - s.begin()) == at, "vector returns the wrong iterator from insert"); } break;
                case 14: case 15: op = "insert(range)"; { alias = false; std::list<T> src; for (int k = (int)r.i(0, 7); k > 0; --k) src.push_back(make<T>(r));
                    typename llvm::SmallVector<T, N>::iterator it;
                    if (r.chance(0.5)) it = s.insert(s.begin() + at, src.begin(), src.end());
                    else { std::vector<T> v(src.begin(), src.end()); it = s.insert(s.begin() + at, v.data(), v.data() + v.size()); }
                    m.insert(m.begin() + at, src.begin(), src.end());
                    vh::expect((size_t)(it - s.begin()) == at, "vector returns the wrong iterator from insert"); } break;
                case 16: op = "resize"; { alias = false; size_t k = (size_t)r.i(0, top + 3); s.resize(k);
                    size_t old = m.size(); m.resize(k);
                    if constexpr (std::is_same_v<T, Vec3<double>>) { for (size_t q = old; q < k; ++q) m[q] = s[q]; }  // Vec3() leaves its values open
                    } break;
                case 17: op = "resize(value)"; { size_t k = (size_t)r.i(0, top + 3); if (alias) { s.resize(k, s[ai]); T c = m[ai]; m.resize(k, c); } else { s.resize(k, val); m.resize(k, val); } } break;
                case 18: op = "reserve"; { alias = false; size_t k = (size_t)r.i(0, 40); s.reserve(k); vh::expect(s.capacity() >= k, "vector capacity below the reserved one"); may_move = true; } break;
                case 19: op = "assign(n)"; { size_t k = (size_t)r.i(0, top); if (alias) { s.assign(k, s[ai]); T c = m[ai]; m.assign(k, c); } else { s.assign(k, val); m.assign(k, val); } } break;
                case 20: op = "assign(range)"; { alias = false; std::deque<T> src; for (int k = (int)r.i(0, top); k > 0; --k) src.push_back(make<T>(r)); s.assign(src.begin(), src.end()); m.assign(src.begin(), src.end()); } break;
                case 21: op = "append(n)"; { size_t k = (size_t)r.i(0, 6); if (alias) { s.append(k, s[ai]); T c = m[ai]; m.insert(m.end(), k, c); } else { s.append(k, val); m.insert(m.end(), k, val); } } break;
                case 22: op = "append(range)"; { alias = false; std::vector<T> src; for (int k = (int)r.i(0, 9); k > 0; --k) src.push_back(make<T>(r)); s.append(src.begin(), src.end()); m.insert(m.end(), src.begin(), src.end()); } break;
                case 23: op = "clear"; alias = false; if (r.chance(0.5)) { s.clear(); m.clear(); } break;
                case 24: op = "swap"; alias = false; { if (r.chance(0.2)) s.swap(s); else { if (r.chance(0.5)) s.swap(b->s); else std::swap(s, b->s); m.swap(b->m); } agree(*b, name, op); may_move = true; } break;
                case 25: op = "copy assignment"; alias = false; { if (r.chance(0.2)) { auto& self = s; s = self; } else if (r.chance(0.5)) { b->s = s; b->m = m; } else { s = b->s; m = b->m; } agree(*b, name, op); may_move = true; } break;
                case 26: op = "move assignment"; alias = false; { s = std::move(b->s); m = std::move(b->m); b->m.clear(); vh::expect(b->s.empty(), "vector moved from is not empty"); b->s.clear(); agree(*b, name, op);
                    if (r.chance(0.5)) { b->s.push_back(val); b->m.push_back(val); agree(*b, name, op); } may_move = true; } break;
                case 27: op = "copy construction"; alias = false; { auto c = std::make_unique<Pair<T, N>>(*a); agree(*c, name, op); if (r.chance(0.5) && n) { c->s[ai] = val; c->m[ai] = val; agree(*c, name, op); agree(*a, name, "changing a copy"); } if (r.chance(0.5)) std::swap(a, c); may_move = true; } break;
                case 28: op = "move construction"; alias = false; { auto c = std::make_unique<Pair<T, N>>(std::move(*a)); a->m.clear(); vh::expect(a->s.empty(), "vector moved from is not empty"); a->s.push_back(val); a->m.push_back(val); agree(*a, name, op); std::swap(a, c); agree(*a, name, op); may_move = true; } break;
                default: op = "comparison"; alias = false; {
if constexpr (!std::is_same_v<T, Vec3<double>>) {  // Vec3 has no equality
                        auto& t = b->s; auto& u = b->m;
                        vh::expect((s == t) == (m == u), "vector comparison differs", "=="); vh::expect((s != t) != (s == t), "vector comparison differs", "!=");
                        vh::expect((s < t) == (m < u), "vector comparison differs", "<");
                        llvm::SmallVector<T, N> c(s); vh::expect(c == s, "vector comparison differs", "copy");
                    } } break;
            }
            if (alias && full_before) { op += " of its own element while full"; vh::count("aliased growth"); }
            trace += op + " ";
            vh::count("vector ops " + name);
            // no reallocation while the capacity suffices
            if (!may_move && a->s.size() <= old_cap) vh::expect(a->s.data() == old_data && a->s.capacity() == old_cap, "vector reallocates although its capacity suffices", op, " size ", a->s.size(), " capacity ", old_cap);
            if (!agree(*a, name, op)) { vh::sample(trace); break; }
            if constexpr (std::is_same_v<T, Tracked>) {
                // copies in models count as well: vector elements + two model vectors + val
                vh::expect(Tracked::bad() == 0, "vector uses an element outside its lifetime", op);
                if (Tracked::bad()) { Tracked::bad() = 0; break; }
                vh::expect(Tracked::live().size() == before + 2 * a->m.size() + 2 * b->m.size() + 1, "vector leaks or drops elements", op, " live ", Tracked::live().size() - before, " want ", 2 * a->m.size() + 2 * b->m.size() + 1);
            }
        }
        vh::eval(vh::hash_str(trace + name));
        vh::count(a->s.capacity() > N ? "vector ends spilled" : "vector ends inline");
    }
    if constexpr (std::is_same_v<T, Tracked>) vh::expect(Tracked::live().size() == before, "vector leaks elements at destruction", Tracked::live().size() - before);
}
template <class T>
void vector_any(Rng& r, std::string const& tn) {
    switch (r.i(0, 3)) {
        case 0: return vector_case<T, 1>(r, tn + "/1");
        case 1: return vector_case<T, 4>(r, tn + "/4");
        case 2: return vector_case<T, 5>(r, tn + "/5");
        default: return vector_case<T, 16>(r, tn + "/16");
    }
}

// ---------------------------------------------------------------- collections
struct Row { int id; double m, x[4]; double p[3], v[3]; };
template <class C> constexpr int kind() {
    return std::is_same_v<typename C::Particle, particles::PointParticle<typename C::Vector>> ? 0 : std::is_same_v<typename C::Particle, particles::SizeParticle<typename C::Vector>> ? 1
         : std::is_same_v<typename C::Particle, particles::TideParticle<typename C::Vector>> ? 2 : 3;
}
template <class C> typename C::Particle particle(Row const& w, bool scalars) {
    using V = typename C::Vector; using P = typename C::Particle; using S = typename C::Scalar;
    V p(w.p[0], w.p[1], w.p[2]), v(w.v[0], w.v[1], w.v[2]);
    S a = w.p[0], b = w.p[1], c = w.p[2], d = w.v[0], e = w.v[1], f = w.v[2];
    if constexpr (kind<C>() == 0) return scalars ? P(S(w.m), a, b, c, d, e, f) : P(S(w.m), p, v);
    else if constexpr (kind<C>() == 1) return scalars ? P(S(w.m), S(w.x[0]), a, b, c, d, e, f) : P(S(w.m), S(w.x[0]), p, v);
    else if constexpr (kind<C>() == 2) return scalars ? P(S(w.m), S(w.x[0]), S(w.x[1]), S(w.x[2]), a, b, c, d, e, f) : P(S(w.m), S(w.x[0]), S(w.x[1]), S(w.x[2]), p, v);
    else return scalars ? P(S(w.m), S(w.x[0]), S(w.x[1]), a, b, c, d, e, f) : P(S(w.m), S(w.x[0]), S(w.x[1]), p, v);
}
template <class V> bool veq(V const& v, double const* w) { return (double)v.x == w[0] && (double)v.y == w[1] && (double)v.z == w[2]; }
template <class P> bool particle_is(P const& p, Row const& w) {
    bool ok = (double)p.mass == w.m && veq(p.pos, w.p) && veq(p.vel, w.v);
    using V = typename P::Vector;
    if constexpr (std::is_same_v<P, particles::SizeParticle<V>>) ok = ok && (double)p.radius == w.x[0];
    if constexpr (std::is_same_v<P, particles::TideParticle<V>>) ok = ok && (double)p.radius == w.x[0] && (double)p.tide_apsidal_const == w.x[1] && (double)p.tide_lag_time == w.x[2];
    if constexpr (std::is_same_v<P, particles::DragParticle<V>>) ok = ok && (double)p.sub_sonic_coef == w.x[0] && (double)p.local_cs == w.x[1];
    return ok;
}
template <class C>
bool agree_c(C const& c, std::vector<Row> const& m, double t, std::string const& name, std::string const& op) {
    std::string k = "collection " + name + " after " + op;
    bool ok = vh::expect(c.number() == m.size(), k, "number ", c.number(), " want ", m.size());
    auto sz = [&](auto const& a, char const* n) { ok = vh::expect(a.size() == m.size(), k, n, " has ", a.size(), " entries, want ", m.size()) && ok; };
    sz(c.mass(), "mass"); sz(c.pos(), "pos"); sz(c.vel(), "vel"); sz(c.idn(), "idn");
    if constexpr (kind<C>() == 1 || kind<C>() == 2) sz(c.radius(), "radius");
    if constexpr (kind<C>() == 2) { sz(c.tide_apsidal_const(), "tide_apsidal_const"); sz(c.tide_lag_time(), "tide_lag_time"); }
    if constexpr (kind<C>() == 3) { sz(c.sub_sonic_c(), "sub_sonic_c"); sz(c.local_cs(), "local_cs"); }
    if (!ok) return false;
    vh::expect(c.capacity() >= c.number(), k, "capacity ", c.capacity(), " below number ", c.number());
    vh::expect((double)c.time() == t, k, "time ", (double)c.time(), " want ", t);
    for (size_t i = 0; i < m.size(); ++i) {
        Row const& w = m[i];
        bool row = (double)c.mass(i) == w.m && veq(c.pos(i), w.p) && veq(c.vel(i), w.v) && (w.id < 0 || (int)c.idn(i) == w.id);
        if constexpr (kind<C>() == 1 || kind<C>() == 2) row = row && (double)c.radius(i) == w.x[0];
        if constexpr (kind<C>() == 2) row = row && (double)c.tide_apsidal_const(i) == w.x[1] && (double)c.tide_lag_time(i) == w.x[2];
        if constexpr (kind<C>() == 3) row = row && (double)c.sub_sonic_c(i) == w.x[0] && (double)c.local_cs(i) == w.x[1];
        ok = vh::expect(row, k, "entry ", i, " of ", m.size(), " id ", (int)c.idn(i), " mass ", (double)c.mass(i), " want id ", w.id, " mass ", w.m) && ok;
    }
    auto list = c.to_AoS();
    ok = vh::expect(list.size() == m.size(), k, "list has ", list.size()) && ok;
    for (size_t i = 0; i < std::min(list.size(), m.size()); ++i) ok = vh::expect(particle_is(list[i], m[i]), k, "listed particle ", i) && ok;
    return ok;
}
template <class C>
void write_row(C& c, size_t i, Row const& w) {
    using V = std::decay_t<decltype(c.pos(i))>;
    c.mass(i) = w.m; c.pos(i) = V(w.p[0], w.p[1], w.p[2]); c.vel(i) = V(w.v[0], w.v[1], w.v[2]);
    if constexpr (kind<C>() == 1 || kind<C>() == 2) c.radius(i) = w.x[0];
    if constexpr (kind<C>() == 2) { c.tide_apsidal_const(i) = w.x[1]; c.tide_lag_time(i) = w.x[2]; }
    if constexpr (kind<C>() == 3) { c.sub_sonic_c(i) = w.x[0]; c.local_cs(i) = w.x[1]; }
}
template <class C>
void collection_case(Rng& r, std::string const& name) {
    using P = typename C::Particle;
    int serial = 0;
    auto row = [&](int id) { Row w; ++serial; w.id = id; w.m = serial + r.u(); for (auto& x : w.x) x = r.normal(); for (auto& x : w.p) x = r.normal(); for (auto& x : w.v) x = r.normal();
        if (r.chance(0.05)) { w.m = 0; for (auto& x : w.x) x = 0; } return w; };
    double t = r.normal();
    std::vector<Row> m;
    std::string trace;
    auto build = [&](int n) {
        m.clear();
        for (int i = 0; i < n; ++i) m.push_back(row(i));
        t = r.normal();
        auto fill = [&](auto& l) { for (auto& w : m) l.push_back(particle<C>(w, r.chance(0.5))); };
        switch (r.i(0, 2)) {
            case 0: { std::vector<P> l; fill(l); return C(t, l); }
            case 1: { std::deque<P> l; fill(l); return C(t, l); }
            default: { std::list<P> l; fill(l); return C(t, l); }
        }
    };
    long top = r.pick(std::vector<long>{4, 17, 40});
    C c = build((int)r.i(0, top));
    if (!agree_c(c, m, t, name, "construction")) return;
    int nops = (int)r.i(4, 40);
    for (int o = 0; o < nops; ++o) {
        std::string op;
        size_t n = m.size();
        switch (r.i(0, 11)) {
            case 0: case 1: case 2: case 3: { op = "emplace_back"; Row w = row((int)n); c.emplace_back(particle<C>(w, r.chance(0.5))); m.push_back(w); } break;
            case 4: { op = "resize"; size_t k = (size_t)r.i(0, top + 4); c.resize(k);
                vh::expect(c.number() == k, "collection " + name + " after resize", "number ", c.number(), " want ", k);
                if (c.pos().size() != k || c.vel().size() != k || c.mass().size() != k || c.idn().size() != k) { vh::viol("collection " + name + " after resize", "attribute sizes"); return; }
                if (k < n) m.resize(k);
                else for (size_t i = n; i < k; ++i) { Row w = row(-1); m.push_back(w); if constexpr (kind<C>() == 1) if (c.radius().size() != k) { vh::viol("collection " + name + " after resize", "radius size"); return; }
                    if constexpr (kind<C>() == 2) if (c.radius().size() != k || c.tide_apsidal_const().size() != k || c.tide_lag_time().size() != k) { vh::viol("collection " + name + " after resize", "attribute size"); return; }
                    if constexpr (kind<C>() == 3) if (c.sub_sonic_c().size() != k || c.local_cs().size() != k) { vh::viol("collection " + name + " after resize", "attribute size"); return; }
                    write_row(c, i, w); } } break;
            case 5: { op = "reserve"; size_t k = (size_t)r.i(0, 60); c.reserve(k); vh::expect(c.capacity() >= k, "collection " + name + " capacity below the reserved one", c.capacity(), " ", k); } break;
            case 6: { op = "clear"; c.clear(); m.clear(); } break;
            case 7: if (n) { op = "write"; size_t i = (size_t)r.i(0, n - 1); Row w = row(m[i].id); write_row(c, i, w); m[i] = w; } break;
            case 8: { op = "copy"; C d(c); if (!agree_c(d, m, t, name, op)) return; if (n && r.chance(0.5)) { Row w = row(m[0].id); write_row(d, 0, w); if (!agree_c(c, m, t, name, "changing a copy")) return; m[0] = w; c = d; } } break;
            case 9: { op = "move"; C d(std::move(c)); if (!agree_c(d, m, t, name, op)) return; c = std::move(d); } break;
            case 10: { op = "rebuild from list"; auto l = c.to_AoS(); C d(t, l); for (size_t i = 0; i < m.size(); ++i) m[i].id = (int)i; c = d; } break;
            default: { op = "time"; t = r.normal(); c.time() = t; } break;
        }
        if (op.empty()) continue;
        trace += op + " ";
        vh::count("collection ops " + name);
        if (!agree_c(c, m, t, name, op)) { vh::sample(trace); return; }
    }
    vh::count(m.size() > 16 ? "collections ending beyond the inline buffer" : "collections ending inline");
    vh::eval(vh::hash_str(trace + name + std::to_string(m.size())));
}
template <class T>
void collections(Rng& r, std::string const& tn) {
    switch (r.i(0, 3)) {
        case 0: return collection_case<particles::PointParticles<T>>(r, "point " + tn);
        case 1: return collection_case<particles::SizeParticles<T>>(r, "size " + tn);
        case 2: return collection_case<particles::TideParticles<T>>(r, "tide " + tn);
        default: return collection_case<particles::DragParticles<T>>(r, "drag " + tn);
    }
}

// PART 1: vector with trivial elements, 2: vector with non-trivial elements, 3: collections
#ifndef PART
#define PART 0
#endif
void vh_main() {
#if PART == 0 || PART == 1
    vh::cases("vector trivial", vh::scale(14000, 240000), [&](Rng& r, long i) {
        switch (i % 3) {
            case 0: vector_any<double>(r, "double"); break;
            case 1: vector_any<Vec3<double>>(r, "Vec3"); break;
            default: vector_any<Pod>(r, "struct"); break;
        }
    });
#endif
#if PART == 0 || PART == 2
    vh::cases("vector objects", vh::scale(10000, 160000), [&](Rng& r, long i) {
        if (i % 2) vector_any<Tracked>(r, "tracked"); else vector_any<std::string>(r, "string");
    });
#endif
#if PART == 0 || PART == 3
    vh::cases("collection", vh::scale(12000, 200000), [&](Rng& r, long i) {
        switch (i % 3) {
            case 0: collections<Types<double, Vec3>>(r, "double"); break;
            case 1: collections<Types<double_k, Vec3>>(r, "double_k"); break;
            default: collections<Types<long double, Vec3>>(r, "long double"); break;
        }
    });
#endif
}
