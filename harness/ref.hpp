// Independent long double reference: vectors, Kepler motion, N-body.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <vector>
namespace ref {
using L = long double;
constexpr L PI = 3.141592653589793238462643383279502884L;
struct V {
    L x = 0, y = 0, z = 0;
    V() {}
    V(L a, L b, L c) : x(a), y(b), z(c) {}
    template <class T>
    static V of(T const& v) { return V((L)v.x, (L)v.y, (L)v.z); }
    V operator+(V const& o) const { return {x + o.x, y + o.y, z + o.z}; }
    V operator-(V const& o) const { return {x - o.x, y - o.y, z - o.z}; }
    V operator*(L s) const { return {x * s, y * s, z * s}; }
    V operator/(L s) const { return {x / s, y / s, z / s}; }
    V& operator+=(V const& o) { x += o.x; y += o.y; z += o.z; return *this; }
    V& operator-=(V const& o) { x -= o.x; y -= o.y; z -= o.z; return *this; }
    V operator-() const { return {-x, -y, -z}; }
};
inline V operator*(L s, V const& v) { return v * s; }
inline L dot(V const& a, V const& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V const& a, V const& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L norm(V const& a) { return sqrtl(dot(a, a)); }
inline L dist(V const& a, V const& b) { return norm(a - b); }
inline L wrap(L a) {  // to (-pi,pi]
    a = fmodl(a, 2 * PI);
    if (a > PI) a -= 2 * PI;
    if (a <= -PI) a += 2 * PI;
    return a;
}
// rotation Rz(Om) Rx(i) Rz(w)
inline V rotate(V v, L Om, L i, L w) {
    V a(v.x * cosl(w) - v.y * sinl(w), v.x * sinl(w) + v.y * cosl(w), v.z);
    V b(a.x, a.y * cosl(i) - a.z * sinl(i), a.y * sinl(i) + a.z * cosl(i));
    return V(b.x * cosl(Om) - b.y * sinl(Om), b.x * sinl(Om) + b.y * cosl(Om), b.z);
}
// state of body 1 relative to body 2 on the orbit
inline void kepler_state(L u, L p, L e, L i, L Om, L w, L nu, V& r, V& v) {
    L rr = p / (1 + e * cosl(nu)), s = sqrtl(u / p);
    r = rotate(V(rr * cosl(nu), rr * sinl(nu), 0), Om, i, w);
    v = rotate(V(-s * sinl(nu), s * (e + cosl(nu)), 0), Om, i, w);
}
// eccentric-type anomaly from mean anomaly (Kepler's equation), any orbit type; M unreduced for closed orbits
inline L solve_kepler(L M, L e) {
    if (e < 1) {
        L turns = roundl(M / (2 * PI));
        L m = M - turns * 2 * PI, lo = -PI - 1e-15L, hi = PI + 1e-15L, E = m;
        for (int k = 0; k < 200; ++k) {
            L f = E - e * sinl(E) - m;
            if (f > 0) hi = E; else lo = E;
            L n = E - f / (1 - e * cosl(E));
            if (!(n > lo && n < hi)) n = 0.5L * (lo + hi);
            if (n == E) break;
            E = n;
        }
        return E + turns * 2 * PI;
    }
    if (e > 1) {
        L a = fabsl(M), lo = 0, hi = asinhl((a + 50) / e) + 60, E = asinhl(a / e);
        for (int k = 0; k < 300; ++k) {
            L f = e * sinhl(E) - E - a;
            if (f > 0) hi = E; else lo = E;
            L n = E - f / (e * coshl(E) - 1);
            if (!(n > lo && n < hi)) n = 0.5L * (lo + hi);
            if (n == E) break;
            E = n;
        }
        return M < 0 ? -E : E;
    }
    // parabola, D + D^3/3 = M
    L a = fabsl(M);
    L z = cbrtl(1.5L * a + sqrtl(2.25L * a * a + 1));
    L D = a == 0 ? 0 : z - 1 / z;
    for (int k = 0; k < 5; ++k) D -= (D + D * D * D / 3 - a) / (1 + D * D);
    return M < 0 ? -D : D;
}
inline L E_to_nu(L E, L e) {
    if (e < 1) return 2 * atan2l(sqrtl(1 + e) * sinl(E / 2), sqrtl(1 - e) * cosl(E / 2));
    if (e > 1) return 2 * atanl(sqrtl((e + 1) / (e - 1)) * tanhl(E / 2));
    return 2 * atanl(E);
}
inline L nu_to_E(L nu, L e) {
    if (e < 1) return 2 * atan2l(sqrtl(1 - e) * sinl(nu / 2), sqrtl(1 + e) * cosl(nu / 2));
    if (e > 1) return 2 * atanhl(sqrtl((e - 1) / (e + 1)) * tanl(nu / 2));
    return tanl(nu / 2);
}
inline L E_to_M(L E, L e) {
    if (e < 1) return E - e * sinl(E);
    if (e > 1) return e * sinhl(E) - E;
    return E + E * E * E / 3;
}
// two-body propagation of a relative state by dt (universal variables, long double)
inline void kepler_advance(L u, V& r, V& v, L dt) {
    L r0 = norm(r), vr = dot(r, v) / r0, alpha = 2 / r0 - dot(v, v) / u;
    auto C = [](L z) -> L { if (fabsl(z) < 1e-3L) return 0.5L - z / 24 + z * z / 720 - z * z * z / 40320 + z * z * z * z / 3628800; return z > 0 ? (1 - cosl(sqrtl(z))) / z : (coshl(sqrtl(-z)) - 1) / (-z); };
    auto Sf = [](L z) -> L { if (fabsl(z) < 1e-3L) return 1.0L / 6 - z / 120 + z * z / 5040 - z * z * z / 362880 + z * z * z * z / 39916800; L s = sqrtl(fabsl(z)); return z > 0 ? (s - sinl(s)) / (s * s * s) : (sinhl(s) - s) / (s * s * s); };
    L su = sqrtl(u);
    if (alpha > 0) {  // reduce by whole periods
        L T = 2 * PI / sqrtl(u * alpha * alpha * alpha);
        dt = dt - T * roundl(dt / T);
    }
    auto F = [&](L x) { L z = alpha * x * x; return r0 * vr / su * x * x * C(z) + (1 - alpha * r0) * x * x * x * Sf(z) + r0 * x - su * dt; };
    auto dF = [&](L x) { L z = alpha * x * x; return r0 * vr / su * x * (1 - z * Sf(z)) + (1 - alpha * r0) * x * x * C(z) + r0; };
    L lo, hi;
    {  // F is increasing in x; bracket
        L w = su * fabsl(dt) / r0 + 1e-3L * sqrtl(r0);
        lo = dt >= 0 ? 0 : -w; hi = dt >= 0 ? w : 0;
        for (int k = 0; k < 200 && F(hi) < 0; ++k) hi *= 2;
        for (int k = 0; k < 200 && F(lo) > 0; ++k) lo *= 2;
        if (alpha < 0) {}
    }
    L x = 0.5L * (lo + hi);
    for (int k = 0; k < 300; ++k) {
        L f = F(x);
        if (f > 0) hi = x; else lo = x;
        L n = x - f / dF(x);
        if (!(n > lo && n < hi)) n = 0.5L * (lo + hi);
        if (n == x) break;
        x = n;
    }
    L z = alpha * x * x, c = C(z), s = Sf(z);
    L f = 1 - x * x / r0 * c, g = dt - x * x * x * s / su;
    V rn = r * f + v * g;
    L rr = norm(rn);
    L fd = su / (rr * r0) * (alpha * x * x * x * s - x), gd = 1 - x * x / rr * c;
    v = r * fd + v * gd;
    r = rn;
}
// Gragg-Bulirsch-Stoer in long double for y' = f(t,y)
using State = std::vector<L>;
using Rhs = std::function<void(L, State const&, State&)>;
inline L gbs(Rhs const& f, State& y, L t, L tend, L h, L tol = 1e-17L) {
    const int K = 9;
    static const int ns[K] = {2, 4, 6, 8, 10, 12, 14, 16, 18};
    size_t n = y.size();
    State k0(n), a(n), b(n), k(n), best(n);
    std::vector<State> T(K + 1, State(n));
    long steps = 0;
    L dir = tend >= t ? 1 : -1;
    h = dir * fabsl(h);
    while (dir * (tend - t) > 0) {
        if (dir * (t + h - tend) > 0) h = tend - t;
        if (++steps > 2000000) return NAN;
        f(t, y, k0);
        bool ok = false;
        L errK = 0;
        for (int j = 0; j < K; ++j) {
            int N = ns[j];
            L hh = h / N;
            a = y;
            for (size_t i = 0; i < n; ++i) b[i] = y[i] + hh * k0[i];
            for (int s = 1; s < N; ++s) {
                f(t + s * hh, b, k);
                for (size_t i = 0; i < n; ++i) { L c = a[i] + 2 * hh * k[i]; a[i] = b[i]; b[i] = c; }
            }
            f(t + h, b, k);
            State cur(n);
            for (size_t i = 0; i < n; ++i) cur[i] = 0.5L * (a[i] + b[i] + hh * k[i]);
            State old = best;
            for (int m = j; m > 0; --m) {  // T[m]: entry of the previous row spanning rows m..j-1
                L r = (L)ns[j] / ns[m - 1];
                L den = r * r - 1;
                State nx(n);
                for (size_t i = 0; i < n; ++i) nx[i] = cur[i] + (cur[i] - T[m - 1][i]) / den;
                T[m].swap(cur);  // T[m] now belongs to row j
                cur.swap(nx);
            }
            T[0] = cur;
            best = cur;
            if (j > 0) {
                L err = 0;
                for (size_t i = 0; i < n; ++i) {
                    L sc = fabsl(y[i]) + fabsl(h * k0[i]) + 1e-30L;
                    L e = fabsl(best[i] - old[i]) / sc;
                    if (e > err || e != e) err = e;
                }
                errK = err;
                if (err < tol) { ok = true; y = best; t += h; if (j <= 5) h *= 1.6L; else if (j >= 8) h *= 0.8L; break; }
            }
        }
        if (!ok) { h *= (errK > 1e6L * tol || errK != errK) ? 0.4L : 0.6L; if (fabsl(h) < 1e-25L * (1 + fabsl(t))) return NAN; }
    }
    return t;
}
struct Body { L m; V r, v; };
using Acc = std::function<void(std::vector<Body> const&, std::vector<V>&)>;  // adds to acceleration
inline void gravity(std::vector<Body> const& b, std::vector<V>& a) {
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = i + 1; j < b.size(); ++j) {
            V d = b[j].r - b[i].r;
            L r2 = dot(d, d), r3 = r2 * sqrtl(r2);
            a[i] += d * (b[j].m / r3);
            a[j] -= d * (b[i].m / r3);
        }
}
inline bool evolve(std::vector<Body>& b, L T, Acc extra = nullptr, L tol = 1e-17L, L h0 = 1e-3L) {
    size_t n = b.size();
    State y(6 * n);
    auto pack = [&](std::vector<Body> const& q) { for (size_t i = 0; i < n; ++i) { y[3*i]=q[i].r.x; y[3*i+1]=q[i].r.y; y[3*i+2]=q[i].r.z; y[3*n+3*i]=q[i].v.x; y[3*n+3*i+1]=q[i].v.y; y[3*n+3*i+2]=q[i].v.z; } };
    auto unpack = [&](State const& s, std::vector<Body>& q) { for (size_t i = 0; i < n; ++i) { q[i].r = V(s[3*i],s[3*i+1],s[3*i+2]); q[i].v = V(s[3*n+3*i],s[3*n+3*i+1],s[3*n+3*i+2]); } };
    pack(b);
    std::vector<Body> w = b;
    std::vector<V> a(n);
    Rhs f = [&](L, State const& s, State& d) {
        unpack(s, w);
        for (auto& q : a) q = V();
        gravity(w, a);
        if (extra) extra(w, a);
        for (size_t i = 0; i < n; ++i) {
            d[3*i]=w[i].v.x; d[3*i+1]=w[i].v.y; d[3*i+2]=w[i].v.z;
            d[3*n+3*i]=a[i].x; d[3*n+3*i+1]=a[i].y; d[3*n+3*i+2]=a[i].z;
        }
    };
    L te = gbs(f, y, 0, T, h0, tol);
    if (te != te) return false;
    unpack(y, b);
    return true;
}
inline L energy(std::vector<Body> const& b, L* kin = nullptr, L* pot = nullptr) {
    L k = 0, p = 0;
    for (size_t i = 0; i < b.size(); ++i) {
        k += 0.5L * b[i].m * dot(b[i].v, b[i].v);
        for (size_t j = i + 1; j < b.size(); ++j) p -= b[i].m * b[j].m / dist(b[i].r, b[j].r);
    }
    if (kin) *kin = k;
    if (pot) *pot = p;
    return k + p;
}
inline V momentum(std::vector<Body> const& b) { V p; for (auto& q : b) p += q.v * q.m; return p; }
inline V ang_mom(std::vector<Body> const& b) { V p; for (auto& q : b) p += cross(q.r, q.v) * q.m; return p; }
inline L mass(std::vector<Body> const& b) { L p = 0; for (auto& q : b) p += q.m; return p; }
inline V com(std::vector<Body> const& b) { V p; for (auto& q : b) p += q.r * q.m; return p / mass(b); }
}  // namespace ref
namespace ref {
// Kolmogorov-Smirnov distance of a sample from a continuous distribution; ks_limit: exceeded with probability < 1e-11 per test
template <class F>
inline L ks(std::vector<double> s, F cdf) {
    std::sort(s.begin(), s.end());
    L d = 0, n = s.size();
    for (size_t i = 0; i < s.size(); ++i) {
        L c = cdf(s[i]);
        d = std::max(d, std::max(fabsl(c - i / n), fabsl((i + 1) / n - c)));
    }
    return d;
}
inline L ks_limit(size_t n) { return sqrtl(logl(2 / 1e-11L) / (2 * (L)n)); }
}  // namespace ref
