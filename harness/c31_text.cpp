// C31: the text of particles, systems and values is complete, in the order its columns are named, and reads back.
#include <array>
#include <map>
#include <vector>
#include "vh.hpp"
#include "spaceHub.hpp"
using namespace hub;
using vh::Rng;
using L = long double;
using system::ReguType;
using F = force::Interactions<force::NewtonianGrav>;

static std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> o(1);
    for (char x : s) if (x == c) o.emplace_back(); else o.back() += x;
    return o;
}
static std::vector<std::string> words(std::string const& s) {
    std::vector<std::string> o;
    std::istringstream is(s);
    for (std::string w; is >> w;) o.push_back(w);
    return o;
}
template <class T> struct raw { using type = T; };
template <> struct raw<double_k> { using type = double; };
template <> struct raw<double_p> { using type = double; };
template <> struct raw<double_e> { using type = double; };
template <> struct raw<float_k> { using type = float; };
template <class T> using base_t = typename raw<std::decay_t<T>>::type;
template <class T> static base_t<T> plain(T const& x) { return static_cast<base_t<T>>(x); }

// a stream with random formatting and the same formatting for the expected text
struct Format {
    int prec, style;
    bool show, fill;
    explicit Format(Rng& r) : prec((int)r.i(1, 25)), style((int)r.i(0, 3)), show(r.chance(0.2)), fill(r.chance(0.5)) {}
    template <class S> void on(S& os) const {
        os.precision(prec);
        if (style == 1) os << std::scientific;
        if (style == 2) os << std::fixed;
        if (show) os << std::showpos;
    }
    template <class T> std::string operator()(T const& v) const { std::ostringstream os; on(os); os << plain(v); return os.str(); }
};
template <class T> static T value(Rng& r) {
    using B = base_t<T>;
    double big = std::is_same_v<B, float> ? 1e30 : 1e250;
    if (r.chance(0.1)) return T(B(0));
    if (r.chance(0.2)) return T(B(r.i(-1000, 1000)));
    B v = B(r.chance(0.7) ? r.normal() : r.sign() * r.logu(1 / big, big));
    if (std::is_same_v<B, long double>) v = v / 3;
    return T(v);
}
template <class Vec> static Vec vec(Rng& r) { using S = std::decay_t<decltype(Vec().x)>; return Vec(value<S>(r), value<S>(r), value<S>(r)); }
template <class V> static void put(std::vector<std::string>& o, Format const& f, V const& v) { for (auto const& q : {v.x, v.y, v.z}) o.push_back(f(q)); }
static std::string text(std::vector<std::string> const& v) { std::string o; for (auto& q : v) o += "[" + q + "]"; return o.substr(0, 300); }
static bool same(std::vector<std::string> const& got, std::vector<std::string> const& want, std::string const& key, std::string const& ctx = "") {
    vh::count("texts compared");
    return vh::expect(got == want, key, "got ", text(got), " want ", text(want), " ", ctx);
}
template <class T> static bool bits(T const& a, T const& b) { return plain(a) == plain(b) && std::signbit(plain(a)) == std::signbit(plain(b)); }
template <class V> static bool vbits(V const& a, V const& b) { return bits(a.x, b.x) && bits(a.y, b.y) && bits(a.z, b.z); }
// full precision text with commas turned into spaces: what the reading operators take
template <class T> static std::istringstream reread(T const& v) {
    std::ostringstream os;
    os.precision(36);
    os << v;
    std::string s = os.str();
    for (char& c : s) if (c == ',') c = ' ';
    return std::istringstream(s);
}

template <class S>
static void values(Rng& r, std::string const& t) {
    using Vec = Vec3<S>;
    Format f(r);
    Vec v = vec<Vec>(r), back(S(7), S(7), S(7));
    { std::ostringstream os; f.on(os); os << v; std::vector<std::string> w; put(w, f, v); same(split(os.str(), ','), w, "text of a vector", t); }
    { auto is = reread(v); is >> back; vh::expect(bool(is) && vbits(back, v), "vector read back", t); }
    S x = value<S>(r), y(9);
    { std::ostringstream os; f.on(os); os << x; same({os.str()}, {f(x)}, "text of a number", t); }
    if constexpr (!std::is_same_v<S, base_t<S>>) {  // a number that was in use reads like a new one
        S used = value<S>(r), fresh(1);
        for (int k = (int)r.i(1, 20); k > 0; --k) used += S(base_t<S>(r.sign() * r.logu(1e-9, 1e9)));
        auto i1 = reread(x), i2 = reread(x);
        i1 >> used; i2 >> fresh;
        bool ok = bits(used, x) && bits(fresh, x);
        for (int k = (int)r.i(1, 20); k > 0; --k) { base_t<S> d = base_t<S>(r.sign() * r.logu(1e-9, 1e9)); used += S(d); fresh += S(d); ok = ok && bits(used, fresh); }
        vh::expect(ok, "number in use read back", t, " ", (double)plain(used), " ", (double)plain(fresh));
        vh::count("numbers in use read back");
    }
    { auto is = reread(x); is >> y; vh::expect(bool(is) && bits(x, y), "number read back", t, " ", (double)plain(x), " ", (double)plain(y)); }
    vh::count("values read back", 2);
    std::vector<S> sv;
    std::vector<Vec> vv;
    llvm::SmallVector<S, 4> sm;
    llvm::SmallVector<Vec, 2> smv;
    std::vector<std::string> ws, wv;
    int n = (int)r.i(0, 9);
    for (int i = 0; i < n; ++i) {
        sv.push_back(value<S>(r)); sm.push_back(sv.back()); vv.push_back(vec<Vec>(r)); smv.push_back(vv.back());
        ws.push_back(f(sv.back()));
        std::vector<std::string> one; put(one, f, vv.back()); wv.push_back(one[0] + "," + one[1] + "," + one[2]);
    }
    { std::ostringstream os; f.on(os); os << sv; same(words(os.str()), ws, "text of a std::vector", t); }
    { std::ostringstream os; f.on(os); os << vv; same(words(os.str()), wv, "text of a std::vector of vectors", t); }
    { std::ostringstream os; f.on(os); os << sm; same(words(os.str()), ws, "text of a SmallVector", t); }
    { std::ostringstream os; f.on(os); os << smv; same(words(os.str()), wv, "text of a SmallVector of vectors", t); }
    std::array<S, 5> ar;
    std::vector<std::string> wa;
    for (auto& q : ar) { q = value<S>(r); wa.push_back(f(q)); }
    { std::ostringstream os; f.on(os); os << ar; same(words(os.str()), wa, "text of a std::array", t); }
    // free functions
    int k = (int)r.i(-1000, 1000);
    std::string w;
    for (int j = (int)r.i(1, 8); j > 0; --j) w += "abcXYZ_9"[r.i(0, 7)];
    auto num = [&](int q) { std::ostringstream os; f.on(os); os << q; return os.str(); };
    std::vector<std::string> vt; put(vt, f, v);
    std::string vtext = vt[0] + "," + vt[1] + "," + vt[2];
    { std::ostringstream os; f.on(os); auto& ret = print(os, k, ' ', x, ' ', w, ' ', v, '\n'); same({os.str()}, {num(k) + " " + f(x) + " " + w + " " + vtext + "\n"}, "print", t); vh::expect((void*)&ret == (void*)&os, "print returns its stream", t); }
    { std::ostringstream os; f.on(os); print_csv(os, x, k, w, v, y); same(split(os.str(), ','), {f(x), num(k), w, vt[0], vt[1], vt[2], f(y)}, "print_csv", t); }
    { std::ostringstream os; f.on(os); print_csv(os, x); same({os.str()}, {f(x)}, "print_csv of one", t); }
    { std::ostringstream os; f.on(os); display(os, x, k, w, v); same(words(os.str()), {f(x), num(k), w, vtext}, "display", t); }
    { std::ostringstream os; f.on(os); os << std::make_tuple(x, k, w, y); same(words(os.str()), {f(x), num(k), w, f(y)}, "text of a tuple", t); }
    { std::ostringstream os; f.on(os); os << std::make_tuple(x); same(words(os.str()), {f(x)}, "text of a tuple of one", t); }
    {
        std::ostringstream os; os.precision(36);
        os << std::make_tuple(x, k, w, plain(x));
        S x1(3), x2(3); int k1 = 3, k2 = 3; std::string w1, w2; base_t<S> z1 = 3, z2 = 3;
        std::istringstream is(os.str()), is2(os.str());
        is >> std::tie(x1, k1, w1, z1);
        vh::expect(bool(is) && bits(x1, x) && k1 == k && w1 == w && z1 == plain(x), "tuple read back", t, " ", os.str());
        auto& ret = input(is2, x2, k2, w2, z2);
        vh::expect(bool(is2) && bits(x2, x) && k2 == k && w2 == w && z2 == plain(x) && (void*)&ret == (void*)&is2, "input", t, " ", os.str());
        vh::count("values read back", 2);
    }
    {   // the standard streams, redirected
        std::ostringstream cap; f.on(cap);
        auto* old = std::cout.rdbuf(cap.rdbuf());
        auto oldp = std::cout.precision(f.prec); auto oldf = std::cout.flags(cap.flags());
        std_print(x, ' ', k, ' ', w);
        std::cout.rdbuf(old); std::cout.precision(oldp); std::cout.flags(oldf);
        same(words(cap.str()), {f(x), num(k), w}, "std_print", t);
        auto src = reread(std::make_tuple(x, k, w));
        auto* oldi = std::cin.rdbuf(src.rdbuf());
        std::cin.clear();
        S x1(3); int k1 = 3; std::string w1;
        std_input(x1, k1, w1);
        std::cin.rdbuf(oldi); std::cin.clear();
        vh::expect(bits(x1, x) && k1 == k && w1 == w, "std_input", t);
    }
    orbit::KeplerOrbit<double> o(r.logu(0.1, 10), r.logu(0.1, 10), r.logu(0.1, 10), r.u(0, 0.9), r.u(0, 3), r.u(-3, 3), r.u(-3, 3), r.u(-3, 3));
    { std::ostringstream os; f.on(os); os << o; same(split(os.str(), ','), {f(o.m1), f(o.m2), f(o.p), f(o.e), f(o.i), f(o.Omega), f(o.omega), f(o.nu)}, "text of an orbit"); }
    vh::eval(r.next());
}

// the four kinds of particles: fields of their text, in order
template <class P> struct Kind;
template <class V> struct Kind<particles::PointParticle<V>> {
    static constexpr const char* name = "point";
    static particles::PointParticle<V> mk(Rng& r) { using S = std::decay_t<decltype(V().x)>; return particles::PointParticle<V>(value<S>(r), vec<V>(r), vec<V>(r)); }
    static void fields(std::vector<std::string>& o, Format const& f, particles::PointParticle<V> const& p) { o.push_back(f(p.mass)); put(o, f, p.pos); put(o, f, p.vel); }
    static bool eq(particles::PointParticle<V> const& a, particles::PointParticle<V> const& b) { return bits(a.mass, b.mass) && vbits(a.pos, b.pos) && vbits(a.vel, b.vel); }
    template <class C> static void column(std::map<std::string, std::string>&, Format const&, C const&, size_t) {}
};
template <class V> struct Kind<particles::SizeParticle<V>> {
    static constexpr const char* name = "finite";
    static particles::SizeParticle<V> mk(Rng& r) { using S = std::decay_t<decltype(V().x)>; return particles::SizeParticle<V>(value<S>(r), value<S>(r), vec<V>(r), vec<V>(r)); }
    static void fields(std::vector<std::string>& o, Format const& f, particles::SizeParticle<V> const& p) { o.push_back(f(p.mass)); o.push_back(f(p.radius)); put(o, f, p.pos); put(o, f, p.vel); }
    static bool eq(particles::SizeParticle<V> const& a, particles::SizeParticle<V> const& b) { return bits(a.mass, b.mass) && bits(a.radius, b.radius) && vbits(a.pos, b.pos) && vbits(a.vel, b.vel); }
    template <class C> static void column(std::map<std::string, std::string>& m, Format const& f, C const& c, size_t i) { m["radius"] = f(c.radius(i)); }
};
template <class V> struct Kind<particles::TideParticle<V>> {
    static constexpr const char* name = "tide";
    static particles::TideParticle<V> mk(Rng& r) { using S = std::decay_t<decltype(V().x)>; return particles::TideParticle<V>(value<S>(r), value<S>(r), value<S>(r), value<S>(r), vec<V>(r), vec<V>(r)); }
    static void fields(std::vector<std::string>& o, Format const& f, particles::TideParticle<V> const& p) { o.push_back(f(p.mass)); o.push_back(f(p.radius)); put(o, f, p.pos); put(o, f, p.vel); o.push_back(f(p.tide_apsidal_const)); o.push_back(f(p.tide_lag_time)); }
    static bool eq(particles::TideParticle<V> const& a, particles::TideParticle<V> const& b) { return bits(a.mass, b.mass) && bits(a.radius, b.radius) && vbits(a.pos, b.pos) && vbits(a.vel, b.vel) && bits(a.tide_apsidal_const, b.tide_apsidal_const) && bits(a.tide_lag_time, b.tide_lag_time); }
    template <class C> static void column(std::map<std::string, std::string>& m, Format const& f, C const& c, size_t i) { m["radius"] = f(c.radius(i)); m["k_AM"] = f(c.tide_apsidal_const(i)); m["tau_lag"] = f(c.tide_lag_time(i)); }
};
template <class V> struct Kind<particles::DragParticle<V>> {
    static constexpr const char* name = "drag";
    static particles::DragParticle<V> mk(Rng& r) { using S = std::decay_t<decltype(V().x)>; particles::DragParticle<V> p; p.mass = value<S>(r); p.pos = vec<V>(r); p.vel = vec<V>(r); p.sub_sonic_coef = value<S>(r); p.local_cs = value<S>(r); return p; }
    static void fields(std::vector<std::string>& o, Format const& f, particles::DragParticle<V> const& p) { o.push_back(f(p.mass)); put(o, f, p.pos); put(o, f, p.vel); o.push_back(f(p.sub_sonic_coef)); o.push_back(f(p.local_cs)); }
    static bool eq(particles::DragParticle<V> const& a, particles::DragParticle<V> const& b) { return bits(a.mass, b.mass) && vbits(a.pos, b.pos) && vbits(a.vel, b.vel) && bits(a.sub_sonic_coef, b.sub_sonic_coef) && bits(a.local_cs, b.local_cs); }
    template <class C> static void column(std::map<std::string, std::string>& m, Format const& f, C const& c, size_t i) { m["sub_sonic_c"] = f(c.sub_sonic_c(i)); m["local_cs"] = f(c.local_cs(i)); }
};

// the table a group of particles or a system prints, row by row and column by column as column_names() calls them
template <class P, class C>
static void table(Rng& r, C const& c, std::string const& key, std::string const& ctx) {
    Format f(r);
    std::ostringstream os; f.on(os);
    os << c;
    auto rows = split(os.str(), '\n');
    if (!rows.empty() && rows.back().empty()) rows.pop_back();
    auto names = split(c.column_names(), ',');
    if (!vh::expect(rows.size() == c.number(), key + ": one row per particle", rows.size(), " rows for ", c.number(), " ", ctx)) return;
    for (size_t i = 0; i < rows.size(); ++i) {
        std::map<std::string, std::string> m;
        m["time"] = f(c.time()); { std::ostringstream id; f.on(id); id << c.idn(i); m["id"] = id.str(); } m["mass"] = f(c.mass(i));
        m["px"] = f(c.pos(i).x); m["py"] = f(c.pos(i).y); m["pz"] = f(c.pos(i).z); m["vx"] = f(c.vel(i).x); m["vy"] = f(c.vel(i).y); m["vz"] = f(c.vel(i).z);
        Kind<P>::column(m, f, c, i);
        std::vector<std::string> want;
        for (auto const& n : names) { want.push_back(m.count(n) ? m[n] : "unknown column " + n); m.erase(n); }
        vh::expect(m.empty(), key + ": every quantity has a column", m.empty() ? "" : m.begin()->first, " is missing ", ctx);
        same(split(rows[i], ','), want, key + ": row of values", ctx);
        vh::count("rows compared");
    }
}
template <template <class> class PT, class Ty>
static void bodies(Rng& r, std::string const& t) {
    using C = PT<Ty>;
    using P = typename C::Particle;
    using S = typename Ty::Scalar;
    std::string ctx = t + " " + Kind<P>::name;
    int n = (int)r.i(0, 8);
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) {
        ps.push_back(Kind<P>::mk(r));
        Format f(r);
        std::ostringstream os; f.on(os); os << ps.back();
        std::vector<std::string> w; Kind<P>::fields(w, f, ps.back());
        same(split(os.str(), ','), w, "text of a particle", ctx);
        P q = Kind<P>::mk(r);
        auto is = reread(ps.back());
        is >> q;
        vh::expect(bool(is) && Kind<P>::eq(q, ps.back()), "particle read back", ctx);
        vh::count("particles read back");
    }
    C c(value<S>(r), ps);
    table<P>(r, c, "particles", ctx);
    if (n > 1 && r.chance(0.5)) { c.resize(n - 1); table<P>(r, c, "particles after a change", ctx); P q = Kind<P>::mk(r); c.emplace_back(q); table<P>(r, c, "particles after a change", ctx); }
    vh::count("groups: " + ctx);
    vh::eval(r.next());
}
template <class Sys>
static void systems(Rng& r, std::string const& t) {
    using P = typename Sys::Particle;
    using S = typename Sys::Scalar;
    using V = typename Sys::Vector;
    int n = (int)r.i(2, 8);
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) {
        P p = Kind<P>::mk(r);
        p.mass = S(r.logu(0.01, 10)); p.pos = V(S(r.normal()), S(r.normal()), S(r.normal())); p.vel = V(S(r.normal()), S(r.normal()), S(r.normal()));
        ps.push_back(p);
    }
    Sys s(S(r.normal()), ps);
    table<P>(r, s, "system", t + " at the start");
    for (int k = (int)r.i(1, 3); k > 0; --k) { s.drift(S(0.01)); s.kick(S(0.02)); s.drift(S(0.01)); }
    table<P>(r, s, "system", t + " evolved");
    vh::count("systems: " + t);
    vh::eval(r.next());
}
template <template <class> class PT, class Ty>
static void all_systems(Rng& r, std::string const& t) {
    using P = PT<Ty>;
    systems<system::SimpleSystem<P, F>>(r, t + " simple");
    systems<system::ChainSystem<P, F>>(r, t + " chain");
    systems<system::RegularizedSystem<P, F>>(r, t + " LogH");
    systems<system::RegularizedSystem<P, F, ReguType::TTL>>(r, t + " TTL");
    systems<system::ARchainSystem<P, F>>(r, t + " chain LogH");
}
#ifdef THIN
static const long part = 10;
#else
static const long part = 1;
#endif
void vh_main() {
    using D = Types<double, Vec3>;
    using K = Types<double_k, Vec3>;
    using X = Types<long double, Vec3>;
    vh::cases("values", vh::scale(3000, 60000) / part, [](Rng& r, long) {
        values<double>(r, "double"); values<float>(r, "float"); values<L>(r, "long double"); values<double_k>(r, "double_k"); values<double_p>(r, "double_p"); values<double_e>(r, "double_e");
    });
    vh::cases("bodies", vh::scale(1500, 30000) / part, [](Rng& r, long) {
        bodies<particles::PointParticles, D>(r, "double"); bodies<particles::SizeParticles, D>(r, "double"); bodies<particles::TideParticles, D>(r, "double"); bodies<particles::DragParticles, D>(r, "double");
        bodies<particles::PointParticles, X>(r, "long double"); bodies<particles::SizeParticles, K>(r, "double_k"); bodies<particles::TideParticles, X>(r, "long double"); bodies<particles::DragParticles, K>(r, "double_k");
    });
    vh::cases("systems", vh::scale(600, 12000) / part, [](Rng& r, long) {
        all_systems<particles::PointParticles, D>(r, "double point"); all_systems<particles::TideParticles, D>(r, "double tide"); all_systems<particles::SizeParticles, K>(r, "double_k finite"); all_systems<particles::DragParticles, X>(r, "long double drag");
    });
}
