// Gravitating systems used by the dynamical checks, in extended precision (G = 1).
#pragma once
#include "ref.hpp"
#include "vh.hpp"
namespace scen {
using ref::Body;
using ref::L;
using ref::V;
struct Scenario {
    std::vector<Body> b;
    L T = 1;  // a few dynamical times
    std::string name;
    L e = 0, a = 0;  // of the (inner) orbit
    L unit = 1;      // of time
};
inline V iso(vh::Rng& r) {
    for (;;) {
        V v(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
        L n = ref::norm(v);
        if (n > 0.05 && n < 1) return v / n;
    }
}
inline void to_com(std::vector<Body>& b) {
    V c = ref::com(b), p = ref::momentum(b) / ref::mass(b);
    for (auto& q : b) q.r = q.r - c, q.v = q.v - p;
}
// relative orbit placed on two bodies, centred on their centre of mass
inline void binary(L m1, L m2, L p, L e, L i, L Om, L w, L nu, Body& a, Body& b) {
    V r, v;
    L M = m1 + m2;
    ref::kepler_state(M, p, e, i, Om, w, nu, r, v);
    a.m = m1, b.m = m2;
    a.r = r * (-m2 / M), a.v = v * (-m2 / M);
    b.r = r * (m1 / M), b.v = v * (m1 / M);
}
inline void round_to_double(std::vector<Body>& b) {
    for (auto& q : b) {
        q.m = (double)q.m;
        q.r = V((double)q.r.x, (double)q.r.y, (double)q.r.z);
        q.v = V((double)q.v.x, (double)q.v.y, (double)q.v.z);
    }
}
// kind: 0 ellipse, 1 nearly radial ellipse, 2 unbound pair, 3 hierarchical triple, 4 cold few-body, 5 planets, 6 two binaries, 7 binary-single encounter, 8 almost radial ellipse
// units: some scenarios in other units of length and mass; ghosts: some with massless companions
inline Scenario make(vh::Rng& r, int kind, bool drift, bool units = false, bool ghosts = false) {
    Scenario s;
    const L pi = ref::PI;
    auto ang = [&] { return r.u(0, 2 * (double)pi); };
    if (kind <= 2 || kind == 8) {
        L m1 = r.logu(0.3, 3), m2 = m1 * r.logu(1e-6, 1), e, nu;
        L a = r.logu(0.1, 10);
        if (kind == 0) e = r.chance(0.1) ? 0 : (L)r.u(0, 0.9), nu = ang();
        else if (kind == 1) e = 1 - (L)r.logu(1e-3, 0.1), nu = pi + r.u(-1, 1) * 0.3;
        else if (kind == 8) e = 1 - (L)r.logu(1e-7, 1e-3), nu = pi + r.u(-1, 1) * 0.01;
        else e = r.chance(0.3) ? 1 + (L)r.logu(1e-4, 1e-2) : (L)r.u(1.05, 4), nu = -acosl(-1 / e) * r.u(0.3, 0.9);
        L p = kind == 2 ? a : a * (1 - e * e);
        Body x, y;
        binary(m1, m2, p, e, ang() / 2, ang(), ang(), nu, x, y);
        s.b = r.chance(0.5) ? std::vector<Body>{x, y} : std::vector<Body>{y, x};
        L P = 2 * pi * sqrtl(a * a * a / (m1 + m2));
        if (kind == 2) { L q = p / (1 + e); P = 3 * sqrtl(q * q * q / (m1 + m2)) * 6; }
        s.T = P * (kind == 2 ? r.u(0.5, 3) : r.u(0.7, 2.5));
        s.e = e, s.a = a;
        s.name = kind == 0 ? "ellipse" : kind == 1 ? "nearly radial" : kind == 8 ? "almost radial" : "unbound pair";
    } else if (kind == 3) {
        L a1 = 1, a2 = r.u(5, 20), m1 = r.u(0.5, 1.5), m2 = m1 * r.logu(0.01, 1), m3 = r.logu(0.1, 3);
        Body x, y, z, o;
        L e1 = r.u(0, 0.8), e2 = r.u(0, 0.3);
        binary(m1, m2, a1 * (1 - e1 * e1), e1, ang() / 2, ang(), ang(), ang(), x, y);
        binary(m1 + m2, m3, a2 * (1 - e2 * e2), e2, ang() / 2, ang(), ang(), ang(), o, z);
        for (Body* q : {&x, &y}) q->r += o.r, q->v += o.v;
        s.b = {x, y, z};
        std::swap(s.b[r.i(0, 2)], s.b[r.i(0, 2)]);
        s.T = 2 * pi * r.u(1, 3);
        s.name = "hierarchical triple";
    } else if (kind == 4) {
        int n = (int)r.i(3, 5);
        for (;;) {
            s.b.clear();
            for (int i = 0; i < n; ++i) s.b.push_back({(L)r.logu(0.3, 3), V(r.normal(), r.normal(), r.normal()), V(r.normal(), r.normal(), r.normal()) * 0.3L});
            bool ok = true;
            for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) ok = ok && ref::dist(s.b[i].r, s.b[j].r) > 0.5;
            if (ok && ref::energy(s.b) < -0.2) break;
        }
        s.T = r.u(1, 2.5);
        s.name = "cold few-body";
    } else if (kind == 5) {
        int n = (int)r.i(3, 8);
        s.b.push_back({1, V(), V()});
        L a = 1;
        for (int i = 1; i < n; ++i) {
            L m = r.logu(1e-6, 1e-4), e = r.u(0, 0.1);
            V pr, pv;
            ref::kepler_state(1 + m, a * (1 - e * e), e, r.u(0, 0.1), ang(), ang(), ang(), pr, pv);
            s.b.push_back({m, pr, pv});
            a *= r.u(1.8, 2.5);
        }
        std::swap(s.b[0], s.b[r.i(0, n - 1)]);
        s.T = 2 * pi * r.u(0.7, 2);
        s.name = "planets";
    } else if (kind == 6) {
        Body x1, y1, x2, y2, o1, o2;
        L m[4];
        for (auto& q : m) q = r.logu(0.3, 2);
        binary(m[0], m[1], r.u(0.2, 1) * 0.7, r.u(0, 0.5), ang() / 2, ang(), ang(), ang(), x1, y1);
        binary(m[2], m[3], r.u(0.2, 1) * 0.7, r.u(0, 0.5), ang() / 2, ang(), ang(), ang(), x2, y2);
        L e = r.u(0, 0.5), a = r.u(6, 12);
        binary(m[0] + m[1], m[2] + m[3], a * (1 - e * e), e, ang() / 2, ang(), ang(), ang(), o1, o2);
        for (Body* q : {&x1, &y1}) q->r += o1.r, q->v += o1.v;
        for (Body* q : {&x2, &y2}) q->r += o2.r, q->v += o2.v;
        s.b = {x1, x2, y1, y2};
        s.T = 2 * pi * r.u(1, 2);
        s.name = "two binaries";
    } else {
        Body x, y, o, z;
        L m1 = r.logu(0.5, 2), m2 = r.logu(0.5, 2), m3 = r.logu(0.3, 2), e1 = r.u(0, 0.6);
        binary(m1, m2, 1 - e1 * e1, e1, ang() / 2, ang(), ang(), ang(), x, y);
        L e = r.u(1.2, 3), p = r.u(2, 5);
        binary(m1 + m2, m3, p, e, ang() / 2, ang(), ang(), -acosl(-1 / e) * r.u(0.5, 0.75), o, z);
        for (Body* q : {&x, &y}) q->r += o.r, q->v += o.v;
        s.b = {z, x, y};
        s.T = r.u(3, 8);
        s.name = "encounter";
    }
    to_com(s.b);
    if (drift) {
        V d = iso(r) * (L)r.u(0.1, 3), u = iso(r) * (L)(r.u(0.1, 1) * (double)sqrtl(2 * fabsl(ref::energy(s.b)) / ref::mass(s.b)));
        for (auto& q : s.b) q.r += d, q.v += u;
    }
    if (ghosts && (kind == 0 || kind == 5) && r.chance(0.2)) {  // at least two planets keep their mass
        size_t big = 0, keep;
        for (size_t i = 0; i < s.b.size(); ++i) if (s.b[i].m > s.b[big].m) big = i;
        keep = s.b.size() == 2 ? big : (big + 1) % s.b.size();
        for (size_t i = 0; i < s.b.size(); ++i) if (i != big && i != keep && (kind == 0 || r.chance(0.5))) s.b[i].m = 0;
        s.name += ", massless";
    }
    if (units && r.chance(0.3)) {
        L len = r.logu(1e-8, 1e8), m = r.logu(1e-8, 1e8), v = sqrtl(m / len);
        for (auto& q : s.b) q.m *= m, q.r = q.r * len, q.v = q.v * v;
        s.unit = len / v;
        s.T = (double)(s.T * s.unit);
        s.a *= len;
        s.name += ", rescaled";
    }
    round_to_double(s.b);
    return s;
}
template <class Sys>
inline std::vector<Body> bodies(Sys const& s) {
    std::vector<Body> b;
    for (size_t i = 0; i < s.number(); ++i) {
        auto p = s.pos(i), v = s.vel(i);
        b.push_back({(L)s.mass(i), V((L)p.x, (L)p.y, (L)p.z), V((L)v.x, (L)v.y, (L)v.z)});
    }
    return b;
}
template <class Solver>
inline std::vector<typename Solver::Particle> particles_of(std::vector<Body> const& b) {
    using P = typename Solver::Particle;
    using S = typename Solver::Scalar;
    using Vec = typename Solver::Vector;
    std::vector<P> ps;
    if constexpr (!std::is_constructible_v<P, S, Vec, Vec>) {
        for (auto& q : b) ps.push_back(P(S(q.m), S(0), S(0), S(0), Vec(S(q.r.x), S(q.r.y), S(q.r.z)), Vec(S(q.v.x), S(q.v.y), S(q.v.z))));
        return ps;
    } else
    for (auto& q : b) ps.push_back(P(S(q.m), Vec(S(q.r.x), S(q.r.y), S(q.r.z)), Vec(S(q.v.x), S(q.v.y), S(q.v.z))));
    return ps;
}
}  // namespace scen
