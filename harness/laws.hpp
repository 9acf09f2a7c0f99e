// Published pair accelerations (Newton, post-Newtonian 1/2/2.5, equilibrium tide) in extended precision. Include after spaceHub.hpp.
#pragma once
#include "ref.hpp"
using ref::L;
using ref::V;
struct RB { L m, R, k, tau; V r, v; };
static const L EPS = 0x1p-53L;
static L c_light() { return (L)hub::consts::C; }

// ---- reference pair accelerations; mag: sum of absolute terms (for the rounding budget); sens: how strongly the term reacts to relative errors in its inputs
struct Acc { std::vector<V> a; std::vector<L> mag; };
struct PairCtx { L amp; };  // amplification of input rounding

enum Law { NEWTON, PN1_, PN2_, PN25_, TIDE };

static L g_vmax = 0;  // velocities carry rounding of the largest velocity in the system (chain representation)
static void pair_law(Law law, RB const& A, RB const& B, V& aA, L& mA) {  // acceleration of A by B, A's own label 1
    V n = (A.r - B.r), v = A.v - B.v;
    L r = ref::norm(n);
    n = n / r;
    L m1 = A.m, m2 = B.m, c = c_light(), r2 = r * r;
    L v1s = ref::dot(A.v, A.v), v2s = ref::dot(B.v, B.v), vv = ref::dot(A.v, B.v), n1 = ref::dot(n, A.v), n2 = ref::dot(n, B.v);
    L W = g_vmax;
    switch (law) {
        case NEWTON:
            aA = n * (-m2 / r2);
            mA = m2 / r2;
            return;
        case PN1_: {
            L a = 5 * m1 * m2 / (r2 * r) + 4 * m2 * m2 / (r2 * r) + m2 / r2 * (1.5L * n2 * n2 - v1s + 4 * vv - 2 * v2s);
            L b = m2 / r2 * (4 * n1 - 3 * n2);
            aA = (n * a + v * b) / (c * c);
            mA = (5 * m1 * m2 / (r2 * r) + 4 * m2 * m2 / (r2 * r) + m2 / r2 * 12 * W * W) / (c * c);
            return;
        }
        case PN2_: {
            L G3 = 1 / (r2 * r2), G2 = 1 / (r2 * r), G1 = 1 / r2;
            L a = G3 * (-57.0L / 4 * m1 * m1 * m2 - 69.0L / 2 * m1 * m2 * m2 - 9 * m2 * m2 * m2) +
                  G1 * m2 * (-15.0L / 8 * n2 * n2 * n2 * n2 + 1.5L * n2 * n2 * v1s - 6 * n2 * n2 * vv - 2 * vv * vv + 4.5L * n2 * n2 * v2s + 4 * vv * v2s - 2 * v2s * v2s) +
                  G2 * m1 * m2 * (39.0L / 2 * n1 * n1 - 39 * n1 * n2 + 17.0L / 2 * n2 * n2 - 15.0L / 4 * v1s - 2.5L * vv + 1.25L * v2s) +
                  G2 * m2 * m2 * (2 * n1 * n1 - 4 * n1 * n2 - 6 * n2 * n2 - 8 * vv + 4 * v2s);
            L b = G2 * m2 * m2 * (-2 * n1 - 2 * n2) + G2 * m1 * m2 * (-63.0L / 4 * n1 + 55.0L / 4 * n2) +
                  G1 * m2 * (-6 * n1 * n2 * n2 + 4.5L * n2 * n2 * n2 + n2 * v1s - 4 * n1 * vv + 4 * n2 * vv + 4 * n1 * v2s - 5 * n2 * v2s);
            aA = (n * a + v * b) / (c * c * c * c);
            L W2 = W * W;
            mA = (G3 * (15 * m1 * m1 * m2 + 35 * m1 * m2 * m2 + 9 * m2 * m2 * m2) + G1 * m2 * 50 * W2 * W2 + G2 * m1 * m2 * 100 * W2 + G2 * m2 * m2 * 30 * W2) / (c * c * c * c);
            return;
        }
        case PN25_: {
            L nv = ref::dot(n, v), v2 = ref::dot(v, v);
            L a = 208.0L / 15 * m1 * m2 * m2 / (r2 * r2) * nv - 24.0L / 5 * m1 * m1 * m2 / (r2 * r2) * nv + 12.0L / 5 * m1 * m2 / (r2 * r) * nv * v2;
            L b = 8.0L / 5 * m1 * m1 * m2 / (r2 * r2) - 32.0L / 5 * m1 * m2 * m2 / (r2 * r2) - 4.0L / 5 * m1 * m2 / (r2 * r) * v2;
            L c5 = c * c * c * c * c;
            aA = (n * a + v * b) / c5;
            mA = (20 * m1 * m2 * m2 + 6 * m1 * m1 * m2) / (r2 * r2) * W / c5 + 4 * m1 * m2 / (r2 * r) * W * W * W / c5;
            return;
        }
        case TIDE: {
            // Hut (1981): radial part of the equilibrium tide with constant lag, raised on each body by the other
            L rv = ref::dot(n, v);  // dr/dt
            auto one = [&](RB const& on, RB const& by) { return 3 * on.k * powl(on.R, 5) * by.m * by.m / powl(r, 7) * (1 + 3 * on.tau * rv / r); };
            auto mg = [&](RB const& on, RB const& by) { return 3 * on.k * powl(on.R, 5) * by.m * by.m / powl(r, 7) * (1 + 3 * on.tau * W / r); };
            aA = n * (-(one(A, B) + one(B, A)) / m1);
            mA = (mg(A, B) + mg(B, A)) / m1;
            return;
        }
    }
}
