// C13: compensated numbers add up like higher precision
#include "vh.hpp"
#include "spaceHub.hpp"
using namespace hub;
using Q = __float128;
static Q qabs(Q x) { return x < 0 ? -x : x; }
template <class T> static Q eps() { return (Q)std::numeric_limits<T>::epsilon(); }

enum Kind { DOMINATED, GROWING, RANDOM, CANCELLING };
static const char* KN[] = {"dominated", "growing", "random", "cancelling"};

template <class T>
static std::vector<T> terms(vh::Rng& g, Kind k, size_t n, T& s0) {
    std::vector<T> v(n);
    s0 = 0;
    if (k == DOMINATED) {
        s0 = (T)(g.sign() * g.logu(1e-3, 1e3));
        double rel = g.logu(1e-9, 1e-2), mean = g.chance(0.5) ? 1 : 0;
        double q = g.chance(0.3) ? g.u(0.1, 1) : 0;  // constant terms: rounding errors of a plain sum pile up
        double drift = 0, lim = 0.4;
        for (auto& x : v) {
            double w = q != 0 ? q : mean * 0.5 + g.u(-1, 1);
            drift += w * rel;
            if (fabs(drift) > lim) { w = -w; drift += 2 * w * rel; }
            x = s0 * (T)(w * rel);
        }
    } else if (k == GROWING) {
        double sg = g.sign(), sc = g.logu(1e-3, 1e3), q = g.chance(0.5) ? 0.1 : 0;
        for (auto& x : v) x = (T)(sg * sc * (q != 0 ? q : g.u(0.01, 1)));
        // running sum dominates its terms from the first term on
        if (n) s0 = (T)(sg * sc);
    } else if (k == RANDOM) {
        double lo = g.logu(1e-8, 1), hi = lo * g.logu(1, 1e8);
        for (auto& x : v) x = (T)(g.sign() * g.logu(lo, hi));
    } else {
        // pairs that cancel exactly, shuffled, plus small terms that survive
        double hi = std::is_same_v<T, float> ? g.logu(1e2, 1e6) : g.logu(1e4, 1e14);
        for (size_t i = 0; i + 2 < n; i += 3) { v[i] = (T)(hi * g.u(-1, 1)); v[i + 1] = -v[i]; v[i + 2] = (T)g.u(-1, 1); }
        for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[g.i(0, i - 1)]);
    }
    return v;
}

template <class T> static constexpr int family(Kahan<T>) { return 0; }
template <class T> static constexpr int family(Neumaier<T>) { return 1; }
template <class T> static constexpr int family(Klein<T>) { return 2; }
template <class T> static Q value(Kahan<T> const& k) { return (Q)k.real - (Q)k.err; }
template <class T> static Q value(Neumaier<T> const& k) { return (Q)k.real + (Q)k.err; }
template <class T> static Q value(Klein<T> const& k) { return (Q)k.real + (Q)k.err + (Q)k.err_of_err; }

struct Bound {  // what one pass of accumulation may lose
    Q held = 0, sum = 0, big = 0, e;
    int fam;
    Bound(int f, Q e_, Q s0) : sum(s0), big(qabs(s0)), e(e_), fam(f) {}
    void add(Q x) {
        sum += x;
        big = std::max(big, std::max(qabs(sum), qabs(x)));
        if (fam < 2) held += e / 2 * (qabs(x) + 2 * e * big);     // the incoming term absorbs the stored error: one rounding of it
        else held += 2 * e * e * big;                              // only the error of the error is rounded
    }
    Q tol() const { return held * (Q)1.1 + (Q)1e-33 * big * 64; }
};

template <class K>
static void accumulate(vh::Rng& g, std::string const& name, Kind kind, size_t n) {
    using T = typename K::value_type;
    constexpr int fam = family(K{});
    if (fam == 0 && kind != DOMINATED && kind != GROWING) return;  // Kahan promises nothing when a term exceeds the sum
    T s0;
    auto v = terms<T>(g, kind, n, s0);
    K a(s0);
    K neg(s0);
    K vec0(s0);
    Vec3<K> v3(K{s0}, K{s0}, K{s0});
    std::vector<K> arr{K(s0), K(s0)}, arr2{K(s0), K(s0)};
    std::vector<Vec3<K>> va{Vec3<K>(K{s0}, K{s0}, K{s0})};
    Bound b(fam, eps<T>(), s0);
    uint64_t h = 0;
    int mode = g.i(0, 2);
    T step = (T)std::ldexp(1.0, (int)g.i(-6, 3));
    size_t reads = 0;
    for (size_t i = 0; i < n; ++i) {
        T x = v[i];
        bool minus = mode == 1 || (mode == 2 && (g.next() & 1));
        if (minus) a -= K(-x); else a += K(x);
        // the same term through the vector and array forms
        if (minus) v3 -= Vec3<T>(-x, -x, -x); else v3 += Vec3<T>(x, x, x);
        {
            std::vector<T> inc{x, x}, incs{x / step, x / step}, minc{-x, -x}, mincs{-x / step, -x / step};
            std::vector<Vec3<T>> vi{Vec3<T>(x / step, x / step, x / step)}, mvi{Vec3<T>(-x / step, -x / step, -x / step)};
            if (n <= 2000) {
                if (minus) { calc::array_retreat(arr, minc); calc::array_retreat(arr2, mincs, step); calc::array_retreat(va, mvi, step); }
                else { calc::array_advance(arr, inc); calc::array_advance(arr2, incs, step); calc::array_advance(va, vi, step); }
            }
        }
        b.add((Q)x);
        h = vh::mix(h ^ vh::bits_of(x));
        // intermediate values are as good as the final one
        if (fam < 2 && (i & (i + 1)) == 0) {
            Q d = qabs((Q)(T)a - b.sum), t = b.tol() + eps<T>() * (qabs(b.sum) + qabs(b.sum));
            vh::maxi("margin:" + name + ".running", (double)(d / t));
            vh::expect(d <= t, name + ".running value", KN[kind], " after ", i + 1, " terms off by ", (double)d, " allowed ", (double)t);
            ++reads;
        }
    }
    vh::eval(h);
    vh::count(name + " " + KN[kind]);
    vh::count("terms", n);
    Q t = b.tol();
    Q d = qabs(value(a) - b.sum);
    vh::maxi("margin:" + name + ".held", (double)(d / t));
    vh::expect(d <= t, name + ".held value", KN[kind], " n=", n, " off by ", (double)d, " allowed ", (double)t, " sum ", (double)b.sum);
    auto read = [&](K k, const char* what) {
        if (fam == 2) k += K(T(0));  // fold the pending corrections in
        Q rd = qabs((Q)(T)k - b.sum), rt = t + eps<T>() * qabs(b.sum);
        vh::maxi("margin:" + name + ".read", (double)(rd / rt));
        vh::expect(rd <= rt, name + "." + what, KN[kind], " n=", n, " off by ", (double)rd, " allowed ", (double)rt, " sum ", (double)b.sum, " mode ", mode);
    };
    read(a, "scalar");
    read(v3.x, "vector"); read(v3.y, "vector"); read(v3.z, "vector");
    if (n <= 2000) {
        read(arr[0], "array_advance"); read(arr[1], "array_advance");
        read(arr2[0], "array_advance with step"); read(va[0].x, "vector array_advance with step"); read(va[0].z, "vector array_advance with step");
        vh::count("array forms");
    }
    // copies carry the compensation
    K c = a, c2;
    c2 = a;
    vh::expect(value(c) == value(a) && value(c2) == value(a), name + ".copy", "copy differs");
    if (n > 100000) vh::count("long sequences");
    if (g.chance(0.01)) vh::sample(vh::cat(name, " ", KN[kind], " n=", n, " sum=", (double)b.sum, " error=", (double)d, " allowed=", (double)t));
}

// sums through the library's own reductions
template <class K>
static void reductions(vh::Rng& g, std::string const& name) {
    using T = typename K::value_type;
    size_t n = g.i(1, 3000);
    T s0;
    auto v = terms<T>(g, GROWING, n, s0);
    std::vector<K> kv;
    Bound b(family(K{}), eps<T>(), 0);
    for (auto x : v) { kv.push_back(K(x)); b.add((Q)x); }
    K s = calc::array_sum(kv);
    Q rt = b.tol() + eps<T>() * qabs(b.sum), d = qabs((Q)(T)s - b.sum);
    // the first terms may exceed the sum of those before
    rt += eps<T>() * 2 * qabs((Q)s0);
    vh::maxi("margin:" + name + ".array_sum", (double)(d / rt));
    vh::expect(d <= rt, name + ".array_sum", "n=", n, " off by ", (double)d, " allowed ", (double)rt);
    vh::count("reductions");
}

template <class K>
static void plain_ops(vh::Rng& g, std::string const& name) {
    using T = typename K::value_type;
    T x = (T)(g.sign() * g.logu(1e-6, 1e6)), y = (T)(g.sign() * g.logu(1e-6, 1e6));
    K a(0), b(y);
    // a carries a non-zero error
    a += K(x); a += K(x * std::numeric_limits<T>::epsilon() * (T)0.3);
    T r = a;
    auto same = [&](T got, T want, const char* op) { vh::expect(got == want, name + "." + op, "got ", (double)got, " want ", (double)want); vh::count("plain operations"); };
    same((T)(a + b), r + y, "+"); same((T)(a - b), r - y, "-"); same((T)(a * b), r * y, "*"); same((T)(a / b), r / y, "/");
    same((T)(a + y), r + y, "+T"); same((T)(y - a), y - r, "T-"); same((T)(a * y), r * y, "*T"); same((T)(y / a), y / r, "T/");
    same((T)(-a), -r, "unary -");
    K c = a; c *= b; same((T)c, r * y, "*=");
    c = a; c /= b; same((T)c, r / y, "/=");
    vh::expect((a < b) == (r < y) && (a > b) == (r > y) && (a <= b) == (r <= y) && (a >= b) == (r >= y) && (a == b) == (r == y) && (a != b) == (r != y), name + ".comparison", "");
    same((T)std::sqrt((T)std::fabs((T)a)), std::sqrt(std::fabs(r)), "sqrt");
    std::ostringstream o1, o2;
    o1.precision(25); o2.precision(25); o1 << a; o2 << r;
    vh::expect(o1.str() == o2.str(), name + ".print", o1.str(), " ", o2.str());
    std::istringstream in(o1.str());
    K back = a; in >> back; same((T)back, r, ">>");
    vh::expect(value(back) == (Q)r, name + ".read clears the error", "");
    K z = a; z.zero_err(); vh::expect(value(z) == (Q)r && (T)z == r, name + ".zero_err", "");
    K as = a; as = K(y); vh::expect(value(as) == (Q)y, name + ".assign", "");
    const K cc = a; same((T)cc, r, "const read");
    vh::eval(vh::mix(vh::bits_of((double)r)));
}

template <class K>
static void all(vh::Rng& g, long i, std::string const& name) {
    size_t n = i % 50 == 0 ? (vh::thorough() ? 1000000 : 200000) : i % 50 == 1 ? (size_t)g.i(1000, 30000) : (size_t)g.i(1, 2000);
    accumulate<K>(g, name, (Kind)(i % 4), n);
    accumulate<K>(g, name, (Kind)((i + 1) % 4), std::min<size_t>(n, 2000));
    for (int k = 0; k < 20; ++k) plain_ops<K>(g, name);
    reductions<K>(g, name);
}

// a real particle system drifting freely: positions must be the exact sum of the increments
template <class K>
static void system_drift(vh::Rng& g, std::string const& name) {
    using TS = Types<K>;
    using Ptcs = particles::PointParticles<TS>;
    using P = typename Ptcs::Particle;
    using Sys = hub::system::SimpleSystem<Ptcs, force::Interactions<force::NewtonianGrav>>;
    std::vector<P> init;
    int N = g.i(2, 4);
    for (int i = 0; i < N; ++i) init.push_back(P{1.0, Vec3<double>(g.u(1, 2), g.u(1, 2), g.u(1, 2)), Vec3<double>(g.normal(), g.normal(), g.normal())});
    Sys s(0.0, init);
    int n = 20000;
    double h = g.logu(1e-8, 1e-5);
    std::vector<Q> want(3 * N);
    Q wt = 0;
    std::vector<Q> mag(3 * N);
    std::vector<Vec3<double>> vel;
    for (int i = 0; i < N; ++i) { want[3*i] = s.pos(i).x; want[3*i+1] = s.pos(i).y; want[3*i+2] = s.pos(i).z; vel.push_back(Vec3<double>((double)s.vel(i).x, (double)s.vel(i).y, (double)s.vel(i).z)); }
    for (int k = 0; k < n; ++k) {
        s.drift(h);
        wt += (Q)h;
        for (int i = 0; i < N; ++i) {
            double d[3] = {vel[i].x * h, vel[i].y * h, vel[i].z * h};
            for (int c = 0; c < 3; ++c) { want[3*i+c] += (Q)d[c]; mag[3*i+c] += qabs((Q)d[c]); }
        }
    }
    Q e = eps<double>();
    auto chk = [&](double got, Q w, Q m, const char* what) {
        Q d = qabs((Q)got - w), t = e * (qabs(w) + m) + n * e * e * (qabs(w) + 1);
        vh::maxi("margin:" + name + "." + what, (double)(d / t));
        vh::expect(d <= t, name + "." + what, "off by ", (double)d, " allowed ", (double)t);
    };
    chk((double)s.time(), wt, wt, "system time");
    for (int i = 0; i < N; ++i) { chk((double)s.pos(i).x, want[3*i], mag[3*i], "system position"); chk((double)s.pos(i).y, want[3*i+1], mag[3*i+1], "system position"); chk((double)s.pos(i).z, want[3*i+2], mag[3*i+2], "system position"); }
    vh::count("system drifts");
    vh::eval(vh::mix(vh::bits_of(h)));
}

void vh_main() {
    long n = vh::scale(200, 4000);
    vh::cases("double_k", n, [](vh::Rng& g, long i) { all<double_k>(g, i, "double_k"); });
    vh::cases("double_p", n, [](vh::Rng& g, long i) { all<double_p>(g, i, "double_p"); });
    vh::cases("double_e", n, [](vh::Rng& g, long i) { all<double_e>(g, i, "double_e"); });
    vh::cases("float_k", n, [](vh::Rng& g, long i) { all<float_k>(g, i, "float_k"); });
    vh::cases("float_p", n, [](vh::Rng& g, long i) { all<float_p>(g, i, "float_p"); });
    vh::cases("float_e", n, [](vh::Rng& g, long i) { all<float_e>(g, i, "float_e"); });
    vh::cases("long_double_k", n, [](vh::Rng& g, long i) { all<long_double_k>(g, i, "long_double_k"); });
    vh::cases("long_double_p", n, [](vh::Rng& g, long i) { all<long_double_p>(g, i, "long_double_p"); });
    vh::cases("long_double_e", n, [](vh::Rng& g, long i) { all<long_double_e>(g, i, "long_double_e"); });
    vh::cases("system", vh::scale(24, 400), [](vh::Rng& g, long i) {
        if (i % 3 == 0) system_drift<double_k>(g, "double_k");
        else if (i % 3 == 1) system_drift<double_p>(g, "double_p");
        else system_drift<double_e>(g, "double_e");
    });
}
