// C29: vector and array arithmetic and the system-wide sums are their element-wise definitions.
#include "spaceHub.hpp"
#if __has_include(<quadmath.h>)
#include <quadmath.h>
#else
extern "C" {
__float128 fabsq(__float128) noexcept;
__float128 fmaxq(__float128, __float128) noexcept;
__float128 fminq(__float128, __float128) noexcept;
__float128 sqrtq(__float128) noexcept;
__float128 logq(__float128) noexcept;
__float128 powq(__float128, __float128) noexcept;
int isnanq(__float128) noexcept;
}
#endif
#include <deque>
#include "vh.hpp"
using namespace hub;
using vh::Rng;
using Q = __float128;
using system::ReguType;

template <class T> struct raw { using type = T; };
template <> struct raw<double_k> { using type = double; };
template <> struct raw<double_p> { using type = double; };
template <> struct raw<double_e> { using type = double; };
template <> struct raw<long_double_k> { using type = long double; };
template <class T> using raw_t = typename raw<T>::type;
template <class T> Q q(T const& x) { return (Q)(raw_t<T>)x; }
template <class T> Q eps() { return (Q)std::numeric_limits<raw_t<T>>::epsilon(); }
static bool near(Q got, Q want, Q tol, std::string const& key) {
    Q d = fabsq(got - want);
    if (tol > 0) vh::maxi("margin:" + key, (double)(d / tol));
    if (d <= tol || got == want || (isnanq(got) && isnanq(want))) return true;
    vh::viol(key, vh::cat("got ", (long double)got, " want ", (long double)want, " |diff| ", (double)d, " tol ", (double)tol));
    return false;
}
struct QV { Q x, y, z; };
template <class T> QV qv(Vec3<T> const& v) { return {q(v.x), q(v.y), q(v.z)}; }
static Q dotq(QV a, QV b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Q dota(QV a, QV b) { return fabsq(a.x * b.x) + fabsq(a.y * b.y) + fabsq(a.z * b.z); }
static QV crossq(QV a, QV b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static Q normq(QV a) { return sqrtq(dotq(a, a)); }
static QV sub(QV a, QV b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
template <class T> void near_v(Vec3<T> const& got, QV want, QV tol, std::string const& k) { near(q(got.x), want.x, tol.x, k); near(q(got.y), want.y, tol.y, k); near(q(got.z), want.z, tol.z, k); }

template <class T> T val(Rng& r) {
    double s = r.pick(std::vector<double>{1, 1, 1, 1e3, 1e-3, 1e8, 1e-8});
    if (r.chance(0.06)) return T(0.0);
    if (r.chance(0.1)) return T((double)r.i(-5, 5));
    return T((raw_t<T>)(r.normal() * s) + (raw_t<T>)(r.normal() * s) / 7);
}
template <class T> Vec3<T> vec(Rng& r) {
    if (r.chance(0.1)) { T a = val<T>(r); Vec3<T> v(T(0.0), T(0.0), T(0.0)); (r.chance(0.3) ? v.x : r.chance(0.5) ? v.y : v.z) = a; return v; }
    return Vec3<T>(val<T>(r), val<T>(r), val<T>(r));
}
template <class T> T nz(Rng& r) { T a = val<T>(r); while ((raw_t<T>)a == 0) a = val<T>(r); return a; }

// ---------------------------------------------------------------- Vec3
template <class T, class U>
void vec_case(Rng& r, std::string const& n) {
    std::string k = "Vec3 " + n + " ";
    Vec3<T> a = vec<T>(r), a0 = a;
    Vec3<U> b = vec<U>(r);
    T c = nz<T>(r);
    Vec3<U> bn(nz<U>(r), nz<U>(r), nz<U>(r));
    QV A = qv(a), B = qv(b), N = qv(bn);
    Q C = q(c), e = eps<T>() + (eps<U>() > eps<T>() ? 0 : 0);
    auto tol = [&](QV w, Q f = 1) { return QV{f * e * fabsq(w.x), f * e * fabsq(w.y), f * e * fabsq(w.z)}; };
    auto both = [&](Vec3<T> const& got, QV w, char const* op) { near_v(got, w, tol(w), k + op); };
    QV s{A.x + B.x, A.y + B.y, A.z + B.z}, d{A.x - B.x, A.y - B.y, A.z - B.z}, p{A.x * B.x, A.y * B.y, A.z * B.z}, dv{A.x / N.x, A.y / N.y, A.z / N.z};
    both(a + b, s, "a+b"); both(a - b, d, "a-b"); both(a * b, p, "a*b"); both(a / bn, dv, "a/b");
    QV sc{A.x + C, A.y + C, A.z + C}, dc{A.x - C, A.y - C, A.z - C}, pc{A.x * C, A.y * C, A.z * C}, vc{A.x / C, A.y / C, A.z / C};
    both(a + c, sc, "a+s"); both(a - c, dc, "a-s"); both(a * c, pc, "a*s"); both(a / c, vc, "a/s");
    both(c + a, sc, "s+a"); both(c - a, QV{-dc.x, -dc.y, -dc.z}, "s-a"); both(c * a, pc, "s*a");
    { Vec3<T> m(nz<T>(r), nz<T>(r), nz<T>(r)); QV M = qv(m); both(c / m, QV{C / M.x, C / M.y, C / M.z}, "s/a"); }
    both(-a, QV{-A.x, -A.y, -A.z}, "-a");
    QV ab{fabsq(A.x), fabsq(A.y), fabsq(A.z)};
    both(a.abs(), ab, "abs");
    // compound forms, also with an operand that is the vector itself or one of its components
    { Vec3<T> v = a; v += b; both(v, s, "+="); }
    { Vec3<T> v = a; v -= b; both(v, d, "-="); }
    { Vec3<T> v = a; v *= b; both(v, p, "*="); }
    { Vec3<T> v = a; v /= bn; both(v, dv, "/="); }
    { Vec3<T> v = a; v += c; both(v, sc, "+=s"); }
    { Vec3<T> v = a; v -= c; both(v, dc, "-=s"); }
    { Vec3<T> v = a; v *= c; both(v, pc, "*=s"); }
    { Vec3<T> v = a; v /= c; both(v, vc, "/=s"); }
    { Vec3<T> v = a; v += v; both(v, QV{2 * A.x, 2 * A.y, 2 * A.z}, "v+=v"); }
    { Vec3<T> v = a; v -= v; both(v, QV{0, 0, 0}, "v-=v"); }
    { Vec3<T> v = a; v *= v; both(v, QV{A.x * A.x, A.y * A.y, A.z * A.z}, "v*=v"); }
    { Vec3<T> v = a; v = v + v; both(v, QV{2 * A.x, 2 * A.y, 2 * A.z}, "v=v+v"); }
    if (A.x != 0) { Vec3<T> v = a; v /= v.x; both(v, QV{1, A.y / A.x, A.z / A.x}, "v/=v.x"); }
    if (A.y != 0) { Vec3<T> v = a; v /= v.y; both(v, QV{A.x / A.y, 1, A.z / A.y}, "v/=v.y"); }
    { Vec3<T> v = a; v *= v.y; both(v, QV{A.x * A.y, A.y * A.y, A.z * A.y}, "v*=v.y"); }
    { Vec3<T> v = a; v *= v.x; both(v, QV{A.x * A.x, A.y * A.x, A.z * A.x}, "v*=v.x"); }
    { Vec3<T> v = a; v -= v.x; both(v, QV{0, A.y - A.x, A.z - A.x}, "v-=v.x"); }
    { Vec3<T> v = a; v += v.z; both(v, QV{A.x + A.z, A.y + A.z, 2 * A.z}, "v+=v.z"); }
    { Vec3<T> v = a; v = v.y; both(v, QV{A.y, A.y, A.y}, "v=v.y"); }
    { Vec3<T> v(c); both(v, QV{C, C, C}, "broadcast construction"); Vec3<T> w(b); if (eps<U>() >= eps<T>()) both(w, B, "converting construction"); Vec3<T> z; both(z, QV{0, 0, 0}, "default construction"); }
    // functions
    Q nA = normq(A);
    near(q(norm(a)), nA, 3 * e * nA, k + "norm"); near(q(a.norm()), nA, 3 * e * nA, k + "norm()");
    near(q(norm2(a)), nA * nA, 3 * e * nA * nA, k + "norm2"); near(q(a.norm2()), nA * nA, 3 * e * nA * nA, k + "norm2()");
    if (nA > 0) { near(q(re_norm(a)), 1 / nA, 4 * e / nA, k + "re_norm"); near(q(a.re_norm()), 1 / nA, 4 * e / nA, k + "re_norm()"); }
    Q dist = normq(d);
    near(q(distance(a, b)), dist, 5 * e * dist, k + "distance");
    near(q(dot(a, b)), dotq(A, B), 3 * e * dota(A, B), k + "dot");
    QV cr = crossq(A, B), ct{2 * e * (fabsq(A.y * B.z) + fabsq(A.z * B.y)), 2 * e * (fabsq(A.z * B.x) + fabsq(A.x * B.z)), 2 * e * (fabsq(A.x * B.y) + fabsq(A.y * B.x))};
    near_v(cross(a, b), cr, ct, k + "cross");
    Q mc = fmaxq(A.x, fmaxq(A.y, A.z)), ma = fmaxq(ab.x, fmaxq(ab.y, ab.z));
    near(q(a.max_component()), mc, 0, k + "max_component");
    near(q(max_abs(a)), ma, 0, k + "max_abs");
    both(vec_abs(a), ab, "vec_abs");
    { Vec3<T> w = vec<T>(r); QV W = qv(w); near_v(vec_max(a, w), QV{fmaxq(A.x, W.x), fmaxq(A.y, W.y), fmaxq(A.z, W.z)}, QV{0, 0, 0}, k + "vec_max"); near_v(vec_min(a, w), QV{fminq(A.x, W.x), fminq(A.y, W.y), fminq(A.z, W.z)}, QV{0, 0, 0}, k + "vec_min"); }
    near_v(a, qv(a0), QV{0, 0, 0}, k + "operand changed");
    { std::ostringstream o; o.precision(21); o << a; std::string t = o.str(); for (auto& ch : t) if (ch == ',') ch = ' ';
        std::istringstream is(t); raw_t<T> x, y, z; is >> x >> y >> z; near(q(x), A.x, 0, k + "printed x"); near(q(y), A.y, 0, k + "printed y"); near(q(z), A.z, 0, k + "printed z");
        if constexpr (std::is_same_v<raw_t<T>, T>) { std::istringstream in(t); Vec3<T> back; in >> back; near_v(back, A, QV{0, 0, 0}, k + "read back"); } }
    vh::count("vectors " + n);
    vh::eval(vh::hash_str(n + vh::num((double)A.x) + vh::num((double)A.y) + vh::num((double)A.z)));
}
static void vec_int(Rng& r) {
    Vec3<int> a((int)r.i(-99, 99), (int)r.i(-99, 99), (int)r.i(-99, 99)), b((int)r.i(1, 99), (int)r.i(1, 99), (int)r.i(1, 99));
    auto eq = [&](Vec3<int> g, int x, int y, int z, char const* op) { vh::expect(g.x == x && g.y == y && g.z == z, std::string("Vec3 int ") + op, g.x, ",", g.y, ",", g.z, " want ", x, ",", y, ",", z); };
    eq(a + b, a.x + b.x, a.y + b.y, a.z + b.z, "+"); eq(a - b, a.x - b.x, a.y - b.y, a.z - b.z, "-"); eq(a * b, a.x * b.x, a.y * b.y, a.z * b.z, "*"); eq(a / b, a.x / b.x, a.y / b.y, a.z / b.z, "/");
    eq(cross(a, b), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross"); vh::expect(dot(a, b) == a.x * b.x + a.y * b.y + a.z * b.z, "Vec3 int dot");
    vh::expect(a.max_component() == std::max({a.x, a.y, a.z}), "Vec3 int max_component"); eq(a.abs(), std::abs(a.x), std::abs(a.y), std::abs(a.z), "abs");
    vh::count("vectors int"); vh::eval(vh::hash_str(vh::cat(a.x, a.y, a.z)));
}

// ---------------------------------------------------------------- arrays
// element access uniform over scalars and vectors
template <class T> struct comp { static constexpr int n = 1; static Q get(T const& a, int) { return q(a); } static T make(Rng& r) { return val<T>(r); } static T nonzero(Rng& r) { return nz<T>(r); } };
template <class T> struct comp<Vec3<T>> { static constexpr int n = 3; static Q get(Vec3<T> const& a, int c) { return q(c == 0 ? a.x : c == 1 ? a.y : a.z); } static Vec3<T> make(Rng& r) { return vec<T>(r); } static Vec3<T> nonzero(Rng& r) { return Vec3<T>(nz<T>(r), nz<T>(r), nz<T>(r)); } };
template <class T> struct scalar_of { using type = T; };
template <class T> struct scalar_of<Vec3<T>> { using type = T; };

template <class A1, class A2>
void array_case(Rng& r, std::string const& n) {
    using E1 = typename A1::value_type; using E2 = typename A2::value_type;
    using S = typename scalar_of<E1>::type; using R = raw_t<S>;
    std::string k = "array " + n + " ";
    size_t N = r.chance(0.05) ? 0 : (size_t)r.i(1, r.chance(0.3) ? 70 : 9);
    auto fill = [&](auto& a, bool nonz = false) { using E = typename std::decay_t<decltype(a)>::value_type; for (size_t i = 0; i < N; ++i) a.push_back(nonz ? comp<E>::nonzero(r) : comp<E>::make(r)); };
    A2 a, b, c, d; A1 dst0;
    fill(a); fill(b, true); fill(c); fill(d); fill(dst0);
    Q e = eps<S>();
    R s = (R)nz<S>(r), s2 = (R)nz<S>(r);
    using F = std::function<Q(Q, Q, Q, Q, Q)>;  // (dst, a, b, c, d) -> value
    // def: exact value, mag: the sum of the magnitudes that get rounded
    auto judge = [&](A1 const& got, A1 const& x0, A2 const& xa, A2 const& xb, A2 const& xc, A2 const& xd, F def, F mag, std::string const& op) {
        if (!vh::expect(got.size() == N, k + op, "size")) return;
        for (size_t i = 0; i < N; ++i)
            for (int m = 0; m < comp<E1>::n; ++m) {
                Q v0 = comp<E1>::get(x0[i], m), va = comp<E2>::get(xa[i], m), vb = comp<E2>::get(xb[i], m), vc = comp<E2>::get(xc[i], m), vd = comp<E2>::get(xd[i], m);
                if (!near(comp<E1>::get(got[i], m), def(v0, va, vb, vc, vd), e * mag(v0, va, vb, vc, vd), k + op)) return;
            }
        vh::count("array operations");
    };
    auto ABS = [](Q x) { return fabsq(x); };
#define RUN(OP, CALL, DEF, MAG) { A1 y = dst0; CALL; judge(y, dst0, a, b, c, d, [&](Q D, Q A, Q B, Q C, Q E) -> Q { return DEF; }, [&](Q D, Q A, Q B, Q C, Q E) -> Q { return MAG; }, OP); }
    RUN("set_zero", calc::array_set_zero(y), 0, 0)
    RUN("add 1", calc::array_add(y, a), A, 0)
    RUN("add 2", calc::array_add(y, a, b), A + B, ABS(A + B))
    RUN("add 3", calc::array_add(y, a, b, c), A + B + C, 2 * (ABS(A) + ABS(B) + ABS(C)))
    RUN("add 4", calc::array_add(y, a, b, c, d), A + B + C + E, 3 * (ABS(A) + ABS(B) + ABS(C) + ABS(E)))
    RUN("mul 2", calc::array_mul(y, a, b), A * B, ABS(A * B))
    RUN("mul 3", calc::array_mul(y, a, b, c), A * B * C, 2 * ABS(A * B * C))
    RUN("sub", calc::array_sub(y, a, b), A - B, ABS(A - B))
    RUN("div", calc::array_div(y, a, b), A / B, ABS(A / B))
    RUN("scale", calc::array_scale(y, a, s), A * s, ABS(A * s))
    RUN("div_scale", calc::array_div_scale(y, a, s), A / s, 2 * ABS(A / s))
    RUN("scale_add", calc::array_scale_add(y, a, b, s), (A + B) * s, 3 * (ABS(A) + ABS(B)) * ABS(s))
    RUN("scale_sub", calc::array_scale_sub(y, a, b, s), (A - B) * s, 3 * (ABS(A) + ABS(B)) * ABS(s))
    RUN("scale_add 2", calc::array_scale_add(y, a, s, b, s2), A * s + B * s2, 2 * (ABS(A * s) + ABS(B * s2)))
    RUN("advance", calc::array_advance(y, a), D + A, ABS(D + A) + ABS(A) * 0)
    RUN("advance scaled", calc::array_advance(y, a, s), D + A * s, 2 * (ABS(D) + ABS(A * s)))
    RUN("advance into", calc::array_advance(y, a, b, s), A + B * s, 2 * (ABS(A) + ABS(B * s)))
    RUN("retreat", calc::array_retreat(y, a), D - A, ABS(D - A))
    RUN("retreat scaled", calc::array_retreat(y, a, s), D - A * s, 2 * (ABS(D) + ABS(A * s)))
    RUN("retreat into", calc::array_retreat(y, a, b, s), A - B * s, 2 * (ABS(A) + ABS(B * s)))
    if constexpr (std::is_same_v<A1, A2>) {
        // output aliases an input
#define ALIAS(OP, CALL, DEF, MAG) { A1 y = dst0; CALL; judge(y, dst0, a, b, c, d, [&](Q D, Q A, Q B, Q C, Q E) -> Q { return DEF; }, [&](Q D, Q A, Q B, Q C, Q E) -> Q { return MAG; }, OP " aliased"); vh::count("aliased array operations"); }
        ALIAS("add", calc::array_add(y, y, a), D + A, ABS(D + A))
        ALIAS("add self", calc::array_add(y, a, y, y), A + 2 * D, 2 * (ABS(A) + 2 * ABS(D)))
        ALIAS("mul", calc::array_mul(y, a, y), D * A, ABS(D * A))
        ALIAS("sub first", calc::array_sub(y, y, a), D - A, ABS(D - A))
        ALIAS("sub second", calc::array_sub(y, a, y), A - D, ABS(D - A))
        ALIAS("sub both", calc::array_sub(y, y, y), 0, 0)
        ALIAS("div", calc::array_div(y, y, b), D / B, ABS(D / B))
        ALIAS("scale", calc::array_scale(y, y, s), D * s, ABS(D * s))
        ALIAS("div_scale", calc::array_div_scale(y, y, s), D / s, 2 * ABS(D / s))
        ALIAS("scale_add", calc::array_scale_add(y, a, y, s), (A + D) * s, 3 * (ABS(A) + ABS(D)) * ABS(s))
        ALIAS("scale_sub", calc::array_scale_sub(y, y, a, s), (D - A) * s, 3 * (ABS(A) + ABS(D)) * ABS(s))
        ALIAS("scale_add 2", calc::array_scale_add(y, y, s, a, s2), D * s + A * s2, 2 * (ABS(D * s) + ABS(A * s2)))
        ALIAS("advance", calc::array_advance(y, y), 2 * D, 2 * ABS(D))
        ALIAS("advance scaled", calc::array_advance(y, y, s), D + D * s, 2 * (ABS(D) + ABS(D * s)))
        ALIAS("advance into first", calc::array_advance(y, y, b, s), D + B * s, 2 * (ABS(D) + ABS(B * s)))
        ALIAS("advance into second", calc::array_advance(y, a, y, s), A + D * s, 2 * (ABS(A) + ABS(D * s)))
        ALIAS("retreat into second", calc::array_retreat(y, a, y, s), A - D * s, 2 * (ABS(A) + ABS(D * s)))
    }
    // several arrays at once
    { A1 y = dst0; A2 z = a; calc::set_arrays_zero(y, z); bool ok = true; for (size_t i = 0; i < N; ++i) for (int m = 0; m < comp<E1>::n; ++m) ok = ok && comp<E1>::get(y[i], m) == 0 && comp<E2>::get(z[i], m) == 0; vh::expect(ok && y.size() == N && z.size() == N, k + "set_arrays_zero"); }
    // reductions (plain elements: rounding bound; compensated ones are judged in C13 and here within the same bound)
    {
        Q sum[3] = {0, 0, 0}, mag[3] = {0, 0, 0};
        for (auto const& x : a) for (int m = 0; m < comp<E2>::n; ++m) { sum[m] += comp<E2>::get(x, m); mag[m] += fabsq(comp<E2>::get(x, m)); }
        Q e2 = eps<typename scalar_of<E2>::type>();
        if constexpr (comp<E2>::n == 1) {
            near(q(calc::array_sum(a)), sum[0], (N + 1) * e2 * mag[0], k + "sum");
            Q p = 0, pm = 0, p3 = 0, p3m = 0; for (size_t i = 0; i < N; ++i) { Q t = q(a[i]) * q(b[i]); p += t; pm += fabsq(t); p3 += t * q(c[i]); p3m += fabsq(t * q(c[i])); }
            near(q(calc::array_dot(a, b)), p, (N + 2) * e2 * pm, k + "dot");
            near(q(calc::array_dot(a, b, c)), p3, (N + 3) * e2 * p3m, k + "dot 3");
            vh::expect(q(calc::add(a.empty() ? E2(1.0) : a[0], E2(2.0), E2(3.0))) == q(a.empty() ? E2(1.0) : a[0]) + 5 || fabsq(q(a.empty() ? E2(1.0) : a[0])) > 1e-20, k + "never");
        } else {
            std::vector<R> w; for (size_t i = 0; i < N; ++i) w.push_back((R)std::fabs((double)(R)nz<S>(r)));
            Q p[3] = {0, 0, 0}, pm[3] = {0, 0, 0}, W = 0;
            for (size_t i = 0; i < N; ++i) { W += (Q)w[i]; for (int m = 0; m < 3; ++m) { Q t = comp<E2>::get(a[i], m) * (Q)w[i]; p[m] += t; pm[m] += fabsq(t); } }
            if (N) {
                auto com = calc::calc_com(w, a);
                for (int m = 0; m < 3; ++m) near(comp<std::decay_t<decltype(com)>>::get(com, m), p[m] / W, (2 * N + 4) * e2 * pm[m] / W, k + "centre of mass");
                A2 y = a; calc::move_to_com(w, y);
                for (size_t i = 0; i < N; ++i) for (int m = 0; m < 3; ++m) if (!near(comp<E2>::get(y[i], m), comp<E2>::get(a[i], m) - p[m] / W, (2 * N + 5) * e2 * pm[m] / W + 2 * e2 * fabsq(comp<E2>::get(a[i], m)), k + "move to the centre of mass")) break;
                auto dots = calc::array_dot(a, w);
                for (int m = 0; m < 3; ++m) near(comp<std::decay_t<decltype(dots)>>::get(dots, m), p[m], (N + 2) * e2 * pm[m], k + "weighted sum");
            }
            std::vector<R> o(N); calc::coord_dot(o, a, b);
            Q t = 0, tm = 0, u = 0, um = 0;
            for (size_t i = 0; i < N; ++i) { QV x = qv(a[i]), y = qv(b[i]); if (!near((Q)o[i], dotq(x, y), 3 * e2 * dota(x, y), k + "coord_dot")) break; t += dotq(x, y); tm += dota(x, y); u += dotq(x, y) * (Q)w[i]; um += dota(x, y) * (Q)w[i]; }
            near(q(calc::coord_contract_to_scalar(a, b)), t, (N + 4) * e2 * tm, k + "contract");
            near(q(calc::coord_contract_to_scalar(w, a, b)), u, (N + 5) * e2 * um, k + "weighted contract");
        }
        vh::count("reductions");
    }
    vh::eval(vh::hash_str(n + std::to_string(N) + vh::num((double)s)));
}

// residuals of compensated arrays
template <class K, class R>
void residual_case(Rng& r, std::string const& n) {
    std::string k = "residuals " + n + " ";
    size_t N = (size_t)r.i(1, 12);
    std::vector<K> a(N), b(N); std::vector<R> e(N), o(N);
    std::vector<Vec3<K>> va(N), vb(N); std::vector<Vec3<R>> ve(N), vo(N);
    for (size_t i = 0; i < N; ++i) {
        a[i] = K((R)r.normal()); b[i] = K((R)r.normal()); e[i] = (R)(r.normal() * 1e-17); b[i].err = (R)(r.normal() * 1e-18);
        va[i] = vec<K>(r); vb[i] = vec<K>(r); ve[i] = Vec3<R>((R)r.normal(), (R)r.normal(), (R)r.normal()); vb[i].x.err = (R)r.normal(); vb[i].y.err = (R)r.normal(); vb[i].z.err = (R)r.normal();
    }
    bool ok = true;
    auto chk = [&](char const* op) { vh::expect(ok, k + op); ok = true; vh::count("residual operations"); };
    { auto y = a; calc::array_load_err(y, e); for (size_t i = 0; i < N; ++i) ok = ok && y[i].err == e[i] && y[i].real == a[i].real; chk("load"); }
    { calc::array_save_err(o, b); for (size_t i = 0; i < N; ++i) ok = ok && o[i] == b[i].err; chk("save"); }
    { auto y = a; calc::array_copy_err(y, b); for (size_t i = 0; i < N; ++i) ok = ok && y[i].err == b[i].err && y[i].real == a[i].real; chk("copy"); }
    { auto y = b; calc::array_set_err_zero(y); for (size_t i = 0; i < N; ++i) ok = ok && y[i].err == 0 && y[i].real == b[i].real; chk("zero"); }
    { auto y = va; calc::array_load_err(y, ve); for (size_t i = 0; i < N; ++i) ok = ok && y[i].x.err == ve[i].x && y[i].y.err == ve[i].y && y[i].z.err == ve[i].z && y[i].x.real == va[i].x.real; chk("load vectors"); }
    { calc::array_save_err(vo, vb); for (size_t i = 0; i < N; ++i) ok = ok && vo[i].x == vb[i].x.err && vo[i].y == vb[i].y.err && vo[i].z == vb[i].z.err; chk("save vectors"); }
    { auto y = va; calc::array_copy_err(y, vb); for (size_t i = 0; i < N; ++i) ok = ok && y[i].x.err == vb[i].x.err && y[i].y.err == vb[i].y.err && y[i].z.err == vb[i].z.err && y[i].z.real == va[i].z.real; chk("copy vectors"); }
    { auto y = vb; calc::array_set_err_zero(y); for (size_t i = 0; i < N; ++i) ok = ok && y[i].x.err == 0 && y[i].y.err == 0 && y[i].z.err == 0 && y[i].y.real == vb[i].y.real; chk("zero vectors"); }
    vh::eval(vh::hash_str(n) ^ r.next());
}

// ---------------------------------------------------------------- scalar helpers
static void math_case(Rng& r) {
    double x = val<double>(r), y = r.chance(0.1) ? x : val<double>(r), z = val<double>(r);
    auto is = [&](double g, double w, char const* n) { vh::expect(g == w, std::string("math ") + n, "got ", g, " want ", w, " x ", x, " y ", y, " z ", z); };
    is(math::min(x, y), std::fmin(x, y), "min"); is(math::max(x, y), std::fmax(x, y), "max"); is(math::abs(x), std::fabs(x), "abs");
    double lo = std::fmin(y, z), hi = std::fmax(y, z);
    is(math::in_range(lo, x, hi), std::fmin(std::fmax(x, lo), hi), "in_range");
    is(math::step(x), x > 0 ? 1 : 0, "step");
    if (x != 0) is(math::sign(x), x > 0 ? 1 : -1, "sign"); else vh::expect(std::fabs(math::sign(x)) == 1 || math::sign(x) == 0, "math sign of zero");
    int a = (int)r.i(-50, 50), b = (int)r.i(-50, 50); is(math::min(a, b), std::min(a, b), "min int"); is(math::max(a, b), std::max(a, b), "max int"); is(math::abs(a), std::abs(a), "abs int");
    is(math::in_range((size_t)2, (size_t)r.i(2, 9), (size_t)9) >= 2, 1, "in_range size");
    bool any = r.chance(0.5), all = r.chance(0.5);
    is(calc::any(any, all), any || all, "any"); is(calc::all(any, all), any && all, "all"); is(calc::add(a, b, 3), a + b + 3, "add"); is(calc::mul(a, b, 3), a * b * 3, "mul");
    is(math::epsilon_v<double>, 0x1p-52, "epsilon"); vh::expect(math::epsilon_v<double_k> == 0x1p-52 && math::epsilon_v<float> == 0x1p-23f && math::epsilon_v<long double> == std::numeric_limits<long double>::epsilon(), "math epsilon types");
    vh::expect(math::max_value_v<double> == std::numeric_limits<double>::max() && math::max_value_v<float> == std::numeric_limits<float>::max() && math::big_value_v<double> > 1e300, "math limits");
    vh::expect(math::iseq(x, x) && !math::iseq(x, x + 1 + std::fabs(x)), "math iseq");
    // roots of monotone functions bracketed by the interval, either orientation
    double c = r.normal() * 3, s = r.sign() * r.logu(0.01, 100), w = r.u(0.1, 10);
    int form = (int)r.i(0, 3);
    auto f = [=](double t) -> double { double u = t - c; return s * (form == 0 ? u : form == 1 ? u + u * u * u : form == 2 ? std::sinh(u / w) : std::exp(u / 4) - 1); };
    double root = math::root_bisection(f, c - w * r.u(0.1, 1), c + w * r.u(0.1, 1));
    double tol = 4e-16 * (std::fabs(c) + 2) + 4e-16;
    vh::close(root, c, tol, "math root_bisection");
    double root2 = math::root_bisection([=](double t) -> double { return f(t); }, c - w, c + w * 3);
    vh::close(root2, c, tol, "math root_bisection");
    vh::count("math helpers"); vh::eval(vh::hash_str(vh::num(x) + vh::num(c)));
}

// ---------------------------------------------------------------- system-wide sums
template <class S, class = void> struct has_chain : std::false_type {};
template <class S> struct has_chain<S, std::void_t<decltype(std::declval<S&>().chain_pos())>> : std::true_type {};
template <class S, class = void> struct has_regu : std::false_type {};
template <class S> struct has_regu<S, std::void_t<decltype(std::declval<S&>().bindE())>> : std::true_type {};
template <class Sys>
void system_case(Rng& r, std::string const& n) {
    using P = typename Sys::Particle; using S = typename Sys::Scalar; using Vr = typename Sys::Vector;
    std::string k = "system " + n + " ";
    size_t N = (size_t)r.i(2, 9);
    double off = r.chance(0.3) ? 100 : 0;
    std::vector<P> ps;
    for (size_t i = 0; i < N; ++i) {
        double m = r.chance(0.1) && i > 1 ? 0.0 : r.logu(1e-6, 10);
        P p{S(m), Vr(S(off + r.normal()), S(r.normal()), S(r.normal())), Vr(S(r.normal()), S(r.normal()), S(r.normal()))};
        if (i && r.chance(0.3)) p.pos = ps[0].pos + Vr(S(r.normal() * 1e-3), S(r.normal() * 1e-3), S(1e-4));
        ps.push_back(p);
    }
    Sys sys(S(r.normal()), ps);
    int steps = r.chance(0.5) ? (int)r.i(1, 4) : 0;
    for (int t = 0; t < steps; ++t) { sys.drift(S(1e-5)); sys.kick(S(2e-5)); sys.drift(S(1e-5)); }
    Q e = eps<S>();
    std::vector<QV> X, W; std::vector<Q> M;
    for (size_t i = 0; i < N; ++i) { M.push_back(q(sys.mass(i))); X.push_back(qv(sys.pos(i))); W.push_back(qv(sys.vel(i))); }
    Q T = 0, U = 0, Ue = 0, ff = 1e300Q; QV J{0, 0, 0}; Q Jm = 0;
    constexpr bool chained = has_chain<Sys>::value;
    Q xmax = 0; for (auto& x : X) xmax = fmaxq(xmax, normq(x));
    for (size_t i = 0; i < N; ++i) {
        T += 0.5Q * M[i] * dotq(W[i], W[i]);
        QV c = crossq(X[i], W[i]); J.x += M[i] * c.x; J.y += M[i] * c.y; J.z += M[i] * c.z; Jm += M[i] * normq(X[i]) * normq(W[i]);
        for (size_t j = i + 1; j < N; ++j) {
            Q d = normq(sub(X[i], X[j])); Q u = M[i] * M[j] / d; U += u;
            Ue += u * (6 + (chained ? 8 * N * xmax : 4 * (normq(X[i]) + normq(X[j]))) / d);  // how positions' rounding reaches the pair separation
            Q f = 3.14159265358979323846264338327950288420Q / 2 * powq(d, 1.5Q) / sqrtq(2 * (M[i] + M[j]));
            if (M[i] + M[j] > 0) ff = fminq(ff, f);
        }
    }
    Q Uerr = e * (Ue + 2 * N * U);
    near(q(calc::calc_kinetic_energy(sys)), T, (N + 8) * e * T, k + "kinetic energy");
    near(q(calc::calc_potential_energy(sys)), -U, Uerr, k + "potential energy");
    near(q(calc::calc_total_energy(sys)), T - U, Uerr + (N + 9) * e * T, k + "total energy");
    near_v(calc::calc_total_angular_momentum(sys), J, QV{(N + 8) * e * Jm, (N + 8) * e * Jm, (N + 8) * e * Jm}, k + "angular momentum");
    std::vector<size_t> some; for (size_t i = 0; i < N; ++i) if (r.chance(0.6) || i < 2) some.push_back(i);
    QV Js{0, 0, 0}, cx{0, 0, 0}, cv{0, 0, 0}; Q Mt = 0, Jsm = 0, xm = 0, vm = 0;
    for (auto i : some) { QV c = crossq(X[i], W[i]); Js.x += M[i] * c.x; Js.y += M[i] * c.y; Js.z += M[i] * c.z; Jsm += M[i] * normq(X[i]) * normq(W[i]); Mt += M[i];
        cx.x += M[i] * X[i].x; cx.y += M[i] * X[i].y; cx.z += M[i] * X[i].z; cv.x += M[i] * W[i].x; cv.y += M[i] * W[i].y; cv.z += M[i] * W[i].z; xm += M[i] * normq(X[i]); vm += M[i] * normq(W[i]); }
    near_v(calc::calc_angular_momentum(sys, some), Js, QV{(N + 8) * e * Jsm, (N + 8) * e * Jsm, (N + 8) * e * Jsm}, k + "angular momentum of a group");
    if (Mt > 0) {
        QV Ji{Js.x - (cx.y * cv.z - cx.z * cv.y) / Mt, Js.y - (cx.z * cv.x - cx.x * cv.z) / Mt, Js.z - (cx.x * cv.y - cx.y * cv.x) / Mt};
        Q t = (4 * N + 20) * e * (Jsm + xm * vm / Mt);
        near_v(calc::calc_isolated_angular_momentum(sys, some), Ji, QV{t, t, t}, k + "angular momentum of an isolated group");
    }
    Q lo = (Q)calc::calc_fall_free_time(sys.mass(), sys.pos());
    Q rel = 0; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) rel = fmaxq(rel, 4 * (normq(X[i]) + normq(X[j])) / normq(sub(X[i], X[j])));
    near(lo, ff, (fmaxq(e, 0x1p-52Q) * 8 + 0 * rel) * ff, k + "free-fall time");
    Q E0 = (T - U) * (1 + (Q)(r.normal() * 1e-3)) ;
    if constexpr (has_regu<Sys>::value) {
        Q B = q(sys.bindE()), w = fabsq((T + B) / U), w2 = logq(w);
        Q t = (Uerr / U + (N + 12) * e * (T + fabsq(B)) / fabsq(T + B)) * 2 + 2 * e * fabsq(w2);
        if (fabsq(T + B) > 1e-3Q * (T + fabsq(B))) near(q(calc::calc_energy_error(sys, S((double)E0))), w2, t, k + "energy error");
        if (!steps) {
            if (Sys::regu_type == ReguType::None) near(q(sys.step_scale()), 1, 0, k + "step scale"), near(q(calc::calc_step_scale(sys)), 1, 0, k + "step scale");
            else near(q(sys.step_scale()), U, 2 * Uerr, k + "step scale"), near(q(calc::calc_step_scale(sys)), U, 2 * Uerr, k + "step scale");
            near(B, U - T, 2 * (Uerr + (N + 9) * e * T), k + "binding energy");
            vh::count("step scales");
        }
    } else {
        S E0s = (S)(long double)E0; Q E0q = (Q)E0s;
        near(q(calc::calc_energy_error(sys, E0s)), fabsq((T - U - E0q) / E0q), (Uerr + (N + 12) * e * T + 4 * e * fabsq(E0q)) / fabsq(E0q) + 4 * e * fabsq((T - U - E0q) / E0q), k + "energy error");
        near(q(sys.step_scale()), 1, 0, k + "step scale");
        near((Q)calc::calc_step_scale(sys), 1, 0, k + "step scale");
    }
    P p1 = ps[0], p2 = ps[1];
    Q d = normq(sub(qv(p1.pos), qv(p2.pos)));
    near(q(calc::calc_potential_energy(p1, p2)), -q(p1.mass) * q(p2.mass) / d, 8 * e * q(p1.mass) * q(p2.mass) / d, k + "pair energy");
    vh::count("systems " + n); vh::eval(vh::hash_str(n + vh::num((double)T)));
}
template <class Ty>
void systems(Rng& r, std::string const& t) {
    using P = particles::PointParticles<Ty>; using I = force::Interactions<force::NewtonianGrav>;
    switch (r.i(0, 6)) {
        case 0: return system_case<system::SimpleSystem<P, I>>(r, "plain " + t);
        case 1: return system_case<system::ChainSystem<P, I>>(r, "chain " + t);
        case 2: return system_case<system::RegularizedSystem<P, I>>(r, "LogH " + t);
        case 3: return system_case<system::RegularizedSystem<P, I, ReguType::TTL>>(r, "TTL " + t);
        case 4: return system_case<system::RegularizedSystem<P, I, ReguType::None>>(r, "unregularised " + t);
        case 5: return system_case<system::ARchainSystem<P, I>>(r, "chain LogH " + t);
        default: return system_case<system::ARchainSystem<P, I, ReguType::TTL>>(r, "chain TTL " + t);
    }
}

#ifndef PART
#define PART 0
#endif
void vh_main() {
#if PART == 0 || PART == 1
    vh::cases("vectors", vh::scale(60000, 1000000), [&](Rng& r, long i) {
        switch (i % 9) {
            case 0: vec_case<double, double>(r, "double"); break;
            case 1: vec_case<float, float>(r, "float"); break;
            case 2: vec_case<long double, long double>(r, "long double"); break;
            case 3: vec_case<double_k, double_k>(r, "double_k"); break;
            case 4: vec_case<double_k, double>(r, "double_k/double"); break;
            case 5: vec_case<double, double_k>(r, "double/double_k"); break;
            case 6: vec_case<long_double_k, long double>(r, "long_double_k/long double"); break;
            case 7: vec_case<double, float>(r, "double/float"); break;
            default: vec_int(r); break;
        }
    });
    vh::cases("math", vh::scale(40000, 600000), [&](Rng& r, long) { math_case(r); });
#endif
#if PART == 0 || PART == 2
    vh::cases("arrays", vh::scale(30000, 500000), [&](Rng& r, long i) {
        switch (i % 8) {
            case 0: array_case<std::vector<double>, std::vector<double>>(r, "double"); break;
            case 1: array_case<SSO_vector<long double>, SSO_vector<long double>>(r, "long double small"); break;
            case 2: array_case<std::vector<double_k>, std::vector<double_k>>(r, "double_k"); break;
            case 3: array_case<std::vector<Vec3<double>>, std::vector<Vec3<double>>>(r, "Vec3"); break;
            case 4: array_case<SSO_vector<Vec3<double_k>>, SSO_vector<Vec3<double>>>(r, "Vec3 double_k/double small"); break;
            case 5: array_case<std::vector<double_k>, std::vector<double>>(r, "double_k/double"); break;
            case 6: array_case<std::vector<float>, std::vector<float>>(r, "float"); break;
            default: array_case<std::vector<Vec3<double_k>>, std::vector<Vec3<double_k>>>(r, "Vec3 double_k"); break;
        }
    });
    vh::cases("residuals", vh::scale(4000, 60000), [&](Rng& r, long i) { if (i % 2) residual_case<double_k, double>(r, "double_k"); else residual_case<long_double_k, long double>(r, "long_double_k"); });
#endif
#if PART == 0 || PART == 3
    vh::cases("systems", vh::scale(24000, 400000), [&](Rng& r, long i) {
        switch (i % 4) {
            case 0: case 1: systems<Types<double, Vec3>>(r, "double"); break;
            case 2: systems<Types<double_k, Vec3>>(r, "double_k"); break;
            default: systems<Types<long double, Vec3>>(r, "long double"); break;
        }
    });
#endif
}
