From 6851c7ae53179d8dc0678a7e17fec63fd56356f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 01/53] fix: coord_to_orbit takes the semi-latus rectum from
 the angular momentum

The by-reference overload used a*(1-e^2) exactly for parabolic orbits, where
a is infinite, and the by-value overload did so for nearly parabolic ones, so
p came back as NaN, inf or noise.
---
 src/orbits/orbits.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..1761b9d 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -580,12 +580,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
@@ -641,12 +636,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
-- 
2.43.0


From 7f36eba3e0311a7536b6cfb1c157816b4182c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 02/53] fix: coord_to_orbit for orbits in the reference plane
 and for circular orbits

With no line of nodes the argument of periapsis was assigned to Omega as well
(counted twice) and measured from the opposite direction; circular orbits got
a true anomaly off by a quarter turn, and retrograde planar ones its mirror.
---
 src/orbits/orbits.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 1761b9d..7a1a149 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -591,18 +591,17 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(L.z) * math::sign(E.y) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dr.z) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(L.z) * math::sign(dr.y) * myacos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
     }
@@ -647,18 +646,17 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(L.z) * math::sign(E.y) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dr.z) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(L.z) * math::sign(dr.y) * myacos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
         return args;
-- 
2.43.0


From e27fbc77a5d884479e4df3d6e6d4a46fe10c0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 03/53] fix: Hyperbolic orbit starting at periapsis got a NaN
 true anomaly

Rounding can push the cosine just above one when r equals the pericenter
distance, and the guard behind it required inf and NaN at once.
---
 src/orbits/orbits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 7a1a149..ee4dd42 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -520,8 +520,8 @@ namespace hub::orbit {
             spacehub_abort("r = p/(1+e*cos(theta)) = ", r,
                            " is smaller than pericenter distance a*(1-e) = ", a * (1 - e));
         }
-        this->nu = -acos((p - r) / (e * r));
-        if (std::isinf(this->nu) && std::isnan(this->nu)) {
+        this->nu = -myacos((p - r) / (e * r));
+        if (std::isinf(this->nu) || std::isnan(this->nu)) {
             spacehub_abort("true anomaly is inf/nan. a = ", a, " e = ", this->e);
         }
         this->b = b;
-- 
2.43.0


From b7e87296ab21f64672a0631c8c931944cea7592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 04/53] fix: M_anomaly_to_E_anomaly brackets the root for every
 mean anomaly

The bisection always ran on [-pi, pi]: hyperbolic and parabolic eccentric
anomalies beyond pi, and elliptic mean anomalies outside one revolution,
silently came back as +-pi.
---
 src/orbits/orbits.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index ee4dd42..7523795 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -323,14 +323,17 @@ namespace hub::orbit {
         }
 
         if (0 <= e && e < 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (fabs(e - 1) < math::epsilon<Scalar>::value)
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); }, M_anomaly - 1,
+                                        M_anomaly + 1);
+        else if (e > 1) {
+            // e*sinh(x) - x > x^3/6 and e*sinh(x) - x > (e-1)*sinh(x) for x > 0
+            Scalar limit = math::min(cbrt(6 * fabs(M_anomaly)), asinh(fabs(M_anomaly) / (e - 1)));
+            limit *= 1 + 4 * math::epsilon<Scalar>::value;
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -limit,
+                                        limit);
+        } else if (fabs(e - 1) < math::epsilon<Scalar>::value)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+                                        -fabs(M_anomaly), fabs(M_anomaly));
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
-- 
2.43.0


From 2789784a3385174757a459d77a286571614b4592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 05/53] fix: LogTimeSlice::reset_slice_params keeps the old
 origin

The logarithmic times after a reset were still measured from the start given
to the constructor.
---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..8fd7385 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -423,6 +423,7 @@ namespace hub::callback {
     template <typename Operation, typename Scalar>
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
+        start_time_ = start;
         opt_time_ = start + opt_interval_;
         end_time_ = end;
     }
-- 
2.43.0


From 97f25c128ada09c9e573ae7ce52f084bd9142842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 06/53] fix: LogTimeSlice never returns when the slice is not
 longer than one time unit

The logarithmic interval is then <= 1, so the next due time never passes t.
---
 src/args-callback/callbacks.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 8fd7385..d7a263a 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -399,7 +399,7 @@ namespace hub::callback {
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_interval_ > 1 && opt_time_ <= t);
             opt_(ptc, step_size);
         }
     }
@@ -413,7 +413,7 @@ namespace hub::callback {
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_interval_ > 1 && opt_time_ <= t);
             return opt_(ptc, step_size);
         } else {
             return false;
-- 
2.43.0


From 766c86e08872270a98134891b4ff758cf9a84117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 07/53] fix: EnergyErrWriter compares every run with the first
 system ever written

The reference energy was a function-local static shared by all writers of one
particle system type; keep it with the file it belongs to.
---
 src/args-callback/callbacks.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index d7a263a..067cbbe 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -30,6 +30,7 @@ License
 #include <fstream>
 #include <iomanip>
 #include <memory>
+#include <optional>
 
 #include "../core-computation.hpp"
 #include "../dev-tools.hpp"
@@ -296,6 +297,8 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        // shared by all copies of this writer, like the file
+        std::shared_ptr<std::optional<double>> E0_{std::make_shared<std::optional<double>>()};
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +475,10 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        if (!*E0_) {
+            *E0_ = calc::calc_total_energy(ptc);
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, **E0_) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From b8b6d0f3f4830fde59623b0899264eb158b18a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 08/53] fix: stop conditions were called on a copy

A stop condition with state of its own (a counter, a sliced condition) never
advanced, because check_stops copied it before every call.
---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From 38f4099d28a44779e560b4e4526f8c0e6262709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 09/53] fix: the chain search skips the second shortest
 distance after each link

The restart index was incremented by the loop before use, so the pair at 1 was
never examined again and longer links were taken instead of it.
---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..a1a01ff 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;
                     }
                 }
             }
-- 
2.43.0


From cb76098830345a7c7c24ef59b074c5ab3bd9adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/53] fix: tidal_factor of two clusters compared the first
 with itself

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..b749a29 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From 8f5a44bf478538f0e4bb5a64da42cdb9fcd032b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 11/53] fix: E_tid of two clusters does not compile

std::forward of a const reference to the unqualified type drops const.
---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index b749a29..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From 268fcc3473173aa235b88afc3c1fba6ea394b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 12/53] fix: time_to_periapsis of two bodies is NaN at the
 apsides and on circular orbits

Rounding pushes the cosine of the true anomaly past one, and e = 0 divided by zero.
---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 3198d37..a40ed4f 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -489,7 +489,7 @@ namespace hub::orbit {
             auto h = cross(dr, dv);
             auto h2 = dot(h, h);
             auto p = h2 / u;
-            auto T_anomaly = acos((p / r - 1) / e);
+            auto T_anomaly = e > 0 ? myacos((p / r - 1) / e) : 0 * e;
             auto M_anomaly = E_anomaly_to_M_anomaly(T_anomaly_to_E_anomaly(T_anomaly, e), e);
 
             if (orbit_type == OrbitType::Parabola) {
-- 
2.43.0


From 4607f5cc54c1e9e5133b1ad040471677c18107a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 13/53] fix: StickyCollision could not be called

Its call operator was private and read the positions through a layout the
particle systems do not have.
---
 src/args-callback/collision.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/args-callback/collision.hpp b/src/args-callback/collision.hpp
index 34063da..301d6f2 100644
--- a/src/args-callback/collision.hpp
+++ b/src/args-callback/collision.hpp
@@ -35,6 +35,7 @@ namespace hub::callback {
      *
      */
     class StickyCollision {
+       public:
         /**
          * @brief Callable interface for collision detection.
          *
@@ -48,20 +49,13 @@ namespace hub::callback {
         bool operator()(ParticleSys const &ptc, typename ParticleSys::Scalar step_size) {
             static_assert(HAS_METHOD(ParticleSys, radius), "Particle system doesn't have method radius()");
 
-            auto const &px = ptc.pos().x;
-            auto const &py = ptc.pos().y;
-            auto const &pz = ptc.pos().z;
-
+            auto const &p = ptc.pos();
             auto const &r = ptc.radius();
 
             size_t num = ptc.number();
             for (size_t i = 0; i < num; ++i) {
                 for (size_t j = i + 1; j < num; ++j) {
-                    auto dx = px[i] - px[j];
-                    auto dy = py[i] - py[j];
-                    auto dz = pz[i] - pz[j];
-
-                    if (sqrt(dx * dx + dy * dy + dz * dz) <= r[i] + r[j]) {
+                    if (distance(p[i], p[j]) <= r[i] + r[j]) {
                         return true;
                     }
                 }
-- 
2.43.0


From 2fa811675cde1141ca489a7f6284b852eacd5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 14/53] fix: random::Parameter never yields zero or negative
 numbers by default

numeric_limits<double>::min() is the smallest positive number; draw() rejected
everything below it, forever for distributions of non-positive support.
---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From d1e2f89d9ca3be120cd61ef48e3ec470b7681de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 15/53] fix: PowerLaw with power < -1 builds a uniform
 distribution with its limits reversed

That is a violated precondition of std::uniform_real_distribution.
---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index d7a0499..414d1b8 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -79,7 +79,7 @@ namespace hub::random {
             double beta = power + 1;
             double f_low = pow(low, beta);
             double f_high = pow(high, beta);
-            std::uniform_real_distribution<double> dist{f_low, f_high};
+            std::uniform_real_distribution<double> dist{math::min(f_low, f_high), math::max(f_low, f_high)};
             return pow(dist(generator), 1.0 / beta);
         } else {
             return Logarithm(low, high);
-- 
2.43.0


From e685ca8092b806099f9c99ba83447ebbdbe90041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 16/53] fix: multi_threads_loop drops the tail of the range

Whenever the remainder was not smaller than the share of one thread (always,
with fewer items than threads) the last items were given to nobody; and a
temporary task was moved into the first thread and empty in the others.
---
 src/multi-thread/multi-thread.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..7330bd4 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,8 +63,8 @@ namespace hub::multi_thread {
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            if (th_id + 1 == thread_num) end = total_len;
+            threads.emplace_back(std::thread(task, begin, end));
         }
 
         for (auto &thread : threads) {
-- 
2.43.0


From 77e6c592d7d3e2f8cfae249b4afe43db2abb69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 17/53] fix: multi_thread helpers give only the first thread
 its arguments

Temporaries were forwarded, hence moved from, in every iteration of the loop.
---
 src/multi-thread/multi-thread.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 7330bd4..bf5eb3e 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -77,7 +77,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -90,7 +90,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From a07656e429bdb7844c8b0cfd2524272f1ea324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 18/53] fix: ThreadPool shutdown can hang

stop_ was set without the lock, so a worker between its test and its wait missed
the notification and the destructor waited for it for ever.
---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..de94f40 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 59461ce49dcce733f113fdf9c68c0bb46e55312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 19/53] fix: thread_pool.h cannot be included in two
 translation units

---
 src/multi-thread/thread_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index de94f40..a98e490 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -4,6 +4,8 @@
 #include <condition_variable>
 #include <functional>
 #include <future>
+#include <memory>
+#include <mutex>
 #include <queue>
 #include <stdexcept>
 #include <thread>
@@ -48,7 +50,7 @@ namespace hub::multi_thread {
     /*---------------------------------------------------------------------------*\
          Class ThreadPool Implementation
     \*---------------------------------------------------------------------------*/
-    ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
+    inline ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
         for (size_t i = 0; i < max_thread; ++i) {
             workers_.emplace_back([&]() {
                 Task task;
@@ -68,7 +70,7 @@ namespace hub::multi_thread {
         }
     }
 
-    ThreadPool::~ThreadPool() {
+    inline ThreadPool::~ThreadPool() {
         {
             std::lock_guard<std::mutex> lock(lock_);
             stop_ = true;
-- 
2.43.0


From fab66e372134cf61b40b39adbecae1ae6e1668ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 20/53] fix: ConcurrentDeque::try_pop_* do not compile, and
 stop() can miss a waiter

condition_variable::wait needs a unique_lock; stop_ has to change under the lock
the waiters test it with.
---
 src/multi-thread/concurrent-queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
@@ -41,7 +44,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -53,7 +56,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From 5cbef4d401541ef7a2306e5ae095906a0aa72ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 21/53] fix: Opip and Ipip start their thread before the flags
 it reads are initialised

---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..be92214 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -57,8 +57,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;  // last: it uses all the members above
     };
 
     template <typename T>
@@ -121,9 +121,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;  // last: it uses all the members above
     };
 
     template <typename T>
-- 
2.43.0


From 1accbf4f9f3d4f5041081895bce7373a51260f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 22/53] fix: Ipip delivers an extra item at the end of the file

and never ends on malformed input: the stream was tested before the read, for
eof only.
---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index be92214..e8bb22a 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -66,16 +66,16 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  while (file_) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100; ++i) {
                               T data;
-                              file_ >> data;
+                              if (!(file_ >> data)) break;
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From c0a59d4da3dcf1ad8f45b11c2faa89dbebdf5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 23/53] fix: Costream << and Cistream >> do not compile

T && is no forwarding reference in these friends; >> also lost the end-of-data
result its source provides.
---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index e8bb22a..e54ade5 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -101,7 +101,7 @@ namespace hub::multi_thread {
             if (thread_.joinable()) thread_.join();
         }
 
-        friend bool operator>>(Ipip &in, T &&tup) {
+        friend bool operator>>(Ipip &in, T &tup) {
             std::unique_lock<std::mutex> lock(in.mutex_);
             in.cv_io_.wait(lock, [&] { return in.eoq_ || !in.queue_.empty(); });
 
@@ -144,7 +144,7 @@ namespace hub::multi_thread {
             return *this;
         }
 
-        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << tup; }
+        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << T(tup); }
 
        private:
         std::unique_ptr<Opip<T>> pip_ptr_;
@@ -157,7 +157,7 @@ namespace hub::multi_thread {
 
         explicit Cistream(std::string &file_name) : Cistream(file_name.c_str()) {}
 
-        friend void operator>>(Cistream &in, T &&tup) { *(in.pip_ptr_) >> std::forward<T>(tup); }
+        friend bool operator>>(Cistream &in, T &tup) { return *(in.pip_ptr_) >> tup; }
 
        private:
         std::shared_ptr<Ipip<T>> pip_ptr_;
-- 
2.43.0


From 2d1beb95fbdeaf82d9c3736080f27bea72b54e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 24/53] fix: the general derivative counts the Newtonian work
 as external work

In the time-transformed systems the binding energy changes only through the
extra forces; evaluate_general_derivative used the total acceleration, so the
IAS15-type methods drifted off the trajectory with any extra force.
---
 src/particle-system/archain.hpp     | 6 +++++-
 src/particle-system/regu-system.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..9a19c27 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,12 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+
+        Scalar dbindE_dt = 0;
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the extra forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +326,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..b1f5f24 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -319,8 +319,12 @@ namespace hub::system {
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
 
+        Scalar dbindE_dt = 0;
+
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the extra forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +340,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From a06eb7e50959d593223bf0f3ebe204a2178483f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 25/53] fix: Bulirsch-Stoer reads past its tables after a first
 step that needs the last row

The next step then ran up to row k+1 (and the divergence test to k+2), beyond
the end of the extrapolation list and of the constants.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..56c220a 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = math::min(k, max_depth - 1);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From 7c68115763f94152655821dd62c67137f72d78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 26/53] fix: Bulirsch-Stoer aborts when the very first step is
 too long

The first step was retried 100 times with the same length instead of being
shortened.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 56c220a..89a571d 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;
         }
     }
 
-- 
2.43.0


From 40e1f91886a8697be94af9ab437e46daad889199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 27/53] fix: Bulirsch-Stoer on a plain ODE advances the time
 once per trial

The trial integrations moved the caller's time variable, so time-dependent
right-hand sides were evaluated at wrong times and the final time was wrong;
and the solver never left its first-step mode.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 89a571d..958e799 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -267,6 +267,7 @@ namespace hub::ode {
                         Scalar new_h = set_next_iteration(k);
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
+                        first_step_ = false;
                         return iter_h;
                     } else if (is_diverged_anyhow(error, k)) {
                         step_reject_ = true;
@@ -408,7 +409,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 4666597ba1ebe2e4e824cbbb08720d8c4c60b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 28/53] fix: PIDController::set_limiter has no effect

The limits are tabulated in the constructor only.
---
 src/ode-iterator/step-controller/PID-controller.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..cae5b74 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -122,6 +122,12 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        limiter_max_[0] = safe_guard4_;
+        limiter_min_[0] = 1.0 / safe_guard4_;
+        for (size_t i = 1; i < max_order; i++) {
+            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
+            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
+        }
     }
 
     template <typename TypeSystem>
@@ -163,13 +169,10 @@ namespace hub::ode {
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
         expon_[0] = 0.0;
-        limiter_max_[0] = safe_guard4_;
-        limiter_min_[0] = 1.0 / safe_guard4_;
         for (size_t i = 1; i < max_order; i++) {
             expon_[i] = 1.0 / static_cast<Scalar>(i);
-            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
-            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
         }
+        set_limiter(safe_guard3_, safe_guard4_);
     }
 
 }  // namespace hub::ode
-- 
2.43.0


From c48faff60ecb05bc5e94270517d6a148e81f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 29/53] fix: reading a Klein number leaves the second order
 error of its old value

---
 src/kahan-number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..7d34bb2 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -397,7 +397,7 @@ namespace hub {
          */
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
-            v.err = 0;
+            v.zero_err();
             return input;
         }
     };
-- 
2.43.0


From a77aeaa6b7e2a9ca9dab1a20ce993063e1e6bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 30/53] fix: time_to_periapsis is NaN for states that are
 parabolic to rounding

---
 src/orbits/particle-manip.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index a40ed4f..646880e 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -484,6 +484,9 @@ namespace hub::orbit {
         auto [a, e] = calc_a_e(consts::G * (m1 + m2), dr, dv);
 
         if (e >= 0) {
+            if (std::isinf(a) || (a > 0) != (e < 1)) {
+                e = 1;  // energy and eccentricity disagree: parabolic to within rounding
+            }
             auto orbit_type = classify_orbit(e);
 
             auto h = cross(dr, dv);
-- 
2.43.0


From fac81fb3292e6f9dec3a25912cf3629a69ce87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 31/53] fix: M_anomaly_to_E_anomaly of a small mean anomaly
 near e = 1 finds the wrong root

---
 src/orbits/orbits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 7523795..c8a496a 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -328,12 +328,12 @@ namespace hub::orbit {
         else if (e > 1) {
             // e*sinh(x) - x > x^3/6 and e*sinh(x) - x > (e-1)*sinh(x) for x > 0
             Scalar limit = math::min(cbrt(6 * fabs(M_anomaly)), asinh(fabs(M_anomaly) / (e - 1)));
-            limit *= 1 + 4 * math::epsilon<Scalar>::value;
+            limit *= 2;  // the bounds are so tight that rounding could hide the change of sign
             return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -limit,
                                         limit);
         } else if (fabs(e - 1) < math::epsilon<Scalar>::value)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -fabs(M_anomaly), fabs(M_anomaly));
+                                        -2 * fabs(M_anomaly), 2 * fabs(M_anomaly));
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
-- 
2.43.0


From d7b332234f411ac544a4d300f1804462b09df06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 32/53] fix: PN2 uses the wrong velocity component in the
 reaction on the second body

---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..d6c3044 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 5095bcc2fd1e562bdde5857e0c4eb76a13727975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 33/53] fix: MagnetoDisk interpolates with the wrong table
 segment and past the end of the table

---
 src/interaction/magneto-disk.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 1e3b620..ead76d1 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -24,6 +24,9 @@ License
  */
 #pragma once
 
+#include <algorithm>
+#include <vector>
+
 #include "../dev-tools.hpp"
 #include "../macros.hpp"
 #include "../spacehub-concepts.hpp"
@@ -570,7 +573,13 @@ namespace hub::force {
         }
         template <typename Scalar>
         static double interpolate(Scalar x, std::vector<double> const &xarry, std::vector<double> const &yarray) {
-            size_t idx = int((x - xarry[0]) / (xarry[1] - xarry[0]));
+            size_t idx = 0;
+            if (x > xarry[0]) {
+                idx = std::upper_bound(xarry.begin(), xarry.end(), x) - xarry.begin() - 1;
+            }
+            if (idx > xarry.size() - 2) {
+                idx = xarry.size() - 2;
+            }
             double x0 = xarry[idx];
             double x1 = xarry[idx + 1];
             double y0 = yarray[idx];
-- 
2.43.0


From 6a94ed576f0225e443791c996081c9240fd58b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 34/53] fix: disk drag on a body moving with the gas is NaN

---
 src/interaction/alpha-disk.hpp   | 6 ++++--
 src/interaction/magneto-disk.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index f2ee780..116f6ad 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -138,8 +138,10 @@ namespace hub::force {
                 double aeo = 4 * consts::pi * rd * rd * rho * v2;
                 f = df + aeo;
             }
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index ead76d1..87b524f 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -620,8 +620,10 @@ namespace hub::force {
             double aeo = 4 * consts::pi * rd * rd * rho * v2;
             double f = df + aeo;
 
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
-- 
2.43.0


From d4f563d7a6a19022d00bc165a53d97afa8a3ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 35/53] fix: AlphaDisk uses the transonic branch at Mach 0.1

---
 src/interaction/alpha-disk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index 116f6ad..09d32ef 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -120,7 +120,7 @@ namespace hub::force {
             if (force >= 0) {
                 if (Mach > 1 + eps) {
                     I = (0.5 * log(1 - 1 / (Mach * Mach)) + logR) / (Mach * Mach);
-                } else if ((0.1 < Mach) && (Mach < 1 - eps)) {
+                } else if ((0.1 <= Mach) && (Mach < 1 - eps)) {
                     I = (0.5 * log((1 + Mach) / (1 - Mach)) - Mach) / (Mach * Mach);
                 } else if (Mach < 0.1) {
                     I = Mach / 3.0;
-- 
2.43.0


From 8f62f2b7f7fc58969a991ebb9e395dffa6073df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 36/53] fix: DiskCaptureStar drag on a body moving with the gas
 is NaN

---
 src/interaction/disk-capture-star.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interaction/disk-capture-star.hpp b/src/interaction/disk-capture-star.hpp
index 2285f38..33cdaf4 100644
--- a/src/interaction/disk-capture-star.hpp
+++ b/src/interaction/disk-capture-star.hpp
@@ -79,8 +79,10 @@ namespace hub::force {
             acceleration[0] -= std::max(f1, f2) * v_rel / vabs;*/
             // double f1 = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
             double f = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
-- 
2.43.0


From 47bc89c19eeb1b74ac21d6539458ff45fc85f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 37/53] fix: SmallVector reads freed or moved elements when a
 value passed in is one of its own

push_back, emplace_back, insert, append, resize and assign took a reference
to an element of the vector itself and used it after the storage had been
replaced or the elements shifted. Copy the value first, as std::vector does.
---
 src/small-vector.hpp | 62 ++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/small-vector.hpp b/src/small-vector.hpp
index 15430ca..a9dff62 100644
--- a/src/small-vector.hpp
+++ b/src/small-vector.hpp
@@ -612,14 +612,24 @@ namespace llvm {
 
        public:
         void push_back(const T &Elt) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
-            ::new ((void *)this->end()) T(Elt);
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) {
+                T Copy(Elt);  // Elt may be an element of this vector.
+                this->grow();
+                ::new ((void *)this->end()) T(::std::move(Copy));
+            } else {
+                ::new ((void *)this->end()) T(Elt);
+            }
             this->setEnd(this->end() + 1);
         }
 
         void push_back(T &&Elt) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
-            ::new ((void *)this->end()) T(::std::move(Elt));
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) {
+                T Copy(::std::move(Elt));  // Elt may be an element of this vector.
+                this->grow();
+                ::new ((void *)this->end()) T(::std::move(Copy));
+            } else {
+                ::new ((void *)this->end()) T(::std::move(Elt));
+            }
             this->setEnd(this->end() + 1);
         }
 
@@ -699,8 +709,9 @@ namespace llvm {
 
        public:
         void push_back(const T &Elt) {
+            T Copy(Elt);  // Elt may be an element of this vector.
             if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
-            memcpy(this->end(), &Elt, sizeof(T));
+            memcpy(this->end(), &Copy, sizeof(T));
             this->setEnd(this->end() + 1);
         }
 
@@ -754,8 +765,9 @@ namespace llvm {
                 this->destroy_range(this->begin() + N, this->end());
                 this->setEnd(this->begin() + N);
             } else if (N > this->size()) {
+                T Copy(NV);  // NV may be an element of this vector.
                 if (this->capacity() < N) this->grow(N);
-                std::uninitialized_fill(this->end(), this->begin() + N, NV);
+                std::uninitialized_fill(this->end(), this->begin() + N, Copy);
                 this->setEnd(this->begin() + N);
             }
         }
@@ -788,11 +800,12 @@ namespace llvm {
 
         /// Add the specified range to the end of the SmallVector.
         void append(size_type NumInputs, const T &Elt) {
+            T Copy(Elt);  // Elt may be an element of this vector.
             // Grow allocated hub if needed.
             if (NumInputs > size_type(this->capacity_ptr() - this->end())) this->grow(this->size() + NumInputs);
 
             // Copy the new elements over.
-            std::uninitialized_fill_n(this->end(), NumInputs, Elt);
+            std::uninitialized_fill_n(this->end(), NumInputs, Copy);
             this->setEnd(this->end() + NumInputs);
         }
 
@@ -802,10 +815,11 @@ namespace llvm {
         // re-initializing them - for all assign(...) variants.
 
         void assign(size_type NumElts, const T &Elt) {
+            T Copy(Elt);  // Elt may be an element of this vector.
             clear();
             if (this->capacity() < NumElts) this->grow(NumElts);
             this->setEnd(this->begin() + NumElts);
-            std::uninitialized_fill(this->begin(), this->end(), Elt);
+            std::uninitialized_fill(this->begin(), this->end(), Copy);
         }
 
         template <typename in_iter,
@@ -863,6 +877,7 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            T Copy(::std::move(Elt));  // Elt may be an element of this vector.
             if (this->EndX >= this->CapacityX) {
                 size_t EltNo = I - this->begin();
                 this->grow();
@@ -874,12 +889,7 @@ namespace llvm {
             std::move_backward(I, this->end() - 1, this->end());
             this->setEnd(this->end() + 1);
 
-            // If we just moved the element we're inserting, be sure to update
-            // the reference.
-            T *EltPtr = &Elt;
-            if (I <= EltPtr && EltPtr < this->EndX) ++EltPtr;
-
-            *I = ::std::move(*EltPtr);
+            *I = ::std::move(Copy);
             return I;
         }
 
@@ -892,6 +902,7 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            T Copy(Elt);  // Elt may be an element of this vector.
             if (this->EndX >= this->CapacityX) {
                 size_t EltNo = I - this->begin();
                 this->grow();
@@ -902,12 +913,7 @@ namespace llvm {
             std::move_backward(I, this->end() - 1, this->end());
             this->setEnd(this->end() + 1);
 
-            // If we just moved the element we're inserting, be sure to update
-            // the reference.
-            const T *EltPtr = &Elt;
-            if (I <= EltPtr && EltPtr < this->EndX) ++EltPtr;
-
-            *I = *EltPtr;
+            *I = ::std::move(Copy);
             return I;
         }
 
@@ -924,6 +930,7 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            T Copy(Elt);  // Elt may be an element of this vector.
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
 
@@ -942,7 +949,7 @@ namespace llvm {
                 // Copy the existing elements that get replaced.
                 std::move_backward(I, OldEnd - NumToInsert, OldEnd);
 
-                std::fill_n(I, NumToInsert, Elt);
+                std::fill_n(I, NumToInsert, Copy);
                 return I;
             }
 
@@ -956,10 +963,10 @@ namespace llvm {
             this->uninitialized_move(I, OldEnd, this->end() - NumOverwritten);
 
             // Replace the overwritten part.
-            std::fill_n(I, NumOverwritten, Elt);
+            std::fill_n(I, NumOverwritten, Copy);
 
             // Insert the non-overwritten middle part.
-            std::uninitialized_fill_n(OldEnd, NumToInsert - NumOverwritten, Elt);
+            std::uninitialized_fill_n(OldEnd, NumToInsert - NumOverwritten, Copy);
             return I;
         }
 
@@ -1028,8 +1035,13 @@ namespace llvm {
 
         template <typename... ArgTypes>
         void emplace_back(ArgTypes &&...Args) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
-            ::new ((void *)this->end()) T(std::forward<ArgTypes>(Args)...);
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) {
+                T New(std::forward<ArgTypes>(Args)...);  // Args may refer to elements of this vector.
+                this->grow();
+                ::new ((void *)this->end()) T(::std::move(New));
+            } else {
+                ::new ((void *)this->end()) T(std::forward<ArgTypes>(Args)...);
+            }
             this->setEnd(this->end() + 1);
         }
 
-- 
2.43.0


From 8be53fd14b7ae46751ae35777bdde8a1c9232878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 38/53] fix: SmallVector empties elements when it erases or
 inserts an empty range

Erasing or inserting an empty range moved every following element onto
itself, which leaves types such as std::string empty.
---
 src/small-vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/small-vector.hpp b/src/small-vector.hpp
index a9dff62..f8449f3 100644
--- a/src/small-vector.hpp
+++ b/src/small-vector.hpp
@@ -860,6 +860,7 @@ namespace llvm {
             assert(E <= this->end() && "Trying to erase past the end.");
 
             iterator N = S;
+            if (S == E) return (N);  // Nothing to erase: do not move elements onto themselves.
             // Shift all elts down.
             iterator I = std::move(E, this->end(), S);
             // Drop the last elts.
@@ -930,6 +931,8 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            if (NumToInsert == 0) return I;  // Do not move elements onto themselves.
+
             T Copy(Elt);  // Elt may be an element of this vector.
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
@@ -987,6 +990,7 @@ namespace llvm {
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
             size_t NumToInsert = std::distance(From, To);
+            if (NumToInsert == 0) return I;  // Do not move elements onto themselves.
 
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
-- 
2.43.0


From 798198690bd0de65030f7c993ccc79ebb7760eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 39/53] fix: square roots, powers and absolute values of long
 double numbers are rounded to double

Unqualified sqrt, fabs, pow, ... found only the C library's double functions,
because <cmath> need not bring the overloads into the global namespace;
<math.h> does. Types<long double> therefore had double precision norms,
distances and step sizes.
---
 src/math.hpp           | 2 +-
 src/vector/vector3.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index 0efb0d0..8b6a972 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -24,7 +24,7 @@ License
  */
 #pragma once
 
-#include <cmath>
+#include <math.h>
 
 #include "dev-tools.hpp"
 
diff --git a/src/vector/vector3.hpp b/src/vector/vector3.hpp
index 1a09c65..77d16cf 100644
--- a/src/vector/vector3.hpp
+++ b/src/vector/vector3.hpp
@@ -24,7 +24,7 @@ License
  */
 #pragma once
 
-#include <cmath>
+#include <math.h>
 #include <iostream>
 
 #include "../dev-tools.hpp"
-- 
2.43.0


From ceaa1e1c6f5481c83bc00912be11fbe1e37950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 40/53] fix: kB_on_mp is not the ratio of kB and mp

The hard-coded value was 0.1% below kB / unit::mp.
---
 src/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.hpp b/src/macros.hpp
index 7833ba1..bdad65e 100644
--- a/src/macros.hpp
+++ b/src/macros.hpp
@@ -101,5 +101,5 @@ namespace hub::consts {
     constexpr double G = 1;
     constexpr double C = 299792.458 * unit::kms;
     constexpr double kB = 1.38064852e-23 * unit::m * unit::m * unit::kg / unit::sec / unit::sec;
-    constexpr double kB_on_mp = 9.294676266398779e-06;
+    constexpr double kB_on_mp = kB / unit::mp;
 }  // namespace hub::consts
-- 
2.43.0


From d2122db718ea7dab914fd2a60b24cd4dc5cae88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 41/53] fix: command line arguments with spaces are split and
 empty ones are dropped

read_command_line joined all arguments with spaces before extracting them, so
an argument with a space filled two variables and an empty one none, shifting
all that follow.
---
 src/tools/config-reader.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..91a73ed 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -107,16 +107,27 @@ namespace hub::tools {
         if (argc != n + 1) {
             spacehub_abort("Wrong args number!");
         } else {
-            std::stringstream ss;
-            for (int i = 1; i < argc; ++i) {
-                ss << argv[i] << ' ';
-            }
-            ((ss >> std::forward<Args>(args)), ...);
+            int i = 1;
+            auto read = [&](auto &arg) {
+                using Arg = std::decay_t<decltype(arg)>;
+                if constexpr (std::is_class_v<Arg> && std::is_assignable_v<Arg &, char const *>) {
+                    arg = static_cast<char const *>(argv[i++]);
+                } else {
+                    std::stringstream ss(argv[i++]);
+                    ss >> arg;
+                }
+            };
+            (read(args), ...);
         }
     }
 
     class OptArg {
        public:
+        inline OptArg &operator=(char const *opt) {
+            opt_ = opt;
+            return *this;
+        }
+
         inline operator float() { return std::stof(opt_); }
 
         inline operator double() { return std::stod(opt_); }
-- 
2.43.0


From 3bede3d76d52318e7fcf2c21c2bdc3cc63e85b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 42/53] fix: OptArg::as<bool>() and as<char const *>() return
 nothing

No branch handled bool, and the one for strings named the type char *, to
which c_str() does not convert.
---
 src/tools/config-reader.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 91a73ed..d100880 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -168,8 +168,10 @@ namespace hub::tools {
                 return std::stoul(opt_);
             } else if constexpr (std::is_same_v<T, unsigned long long>) {
                 return std::stoull(opt_);
-            } else if constexpr (std::is_same_v<T, char *>) {
+            } else if constexpr (std::is_same_v<T, char const *>) {
                 return opt_.c_str();
+            } else if constexpr (std::is_same_v<T, bool>) {
+                return static_cast<bool>(std::stoi(opt_));
             } else if constexpr (std::is_same_v<T, std::string>) {
                 return opt_;
             }
-- 
2.43.0


From cadeb11e5018e39226455ba8b97fef52ab15047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 43/53] fix: ConfigReader cannot use white space as the divider

White space was removed from the line before the divider was looked for.
---
 src/tools/config-reader.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index d100880..618800b 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -70,13 +70,18 @@ namespace hub::tools {
         if (file.is_open()) {
             std::string line;
             while (std::getline(file, line)) {
-                line.erase(std::remove_if(line.begin(), line.end(), isspace), line.end());
+                auto strip = [](std::string str) {
+                    str.erase(std::remove_if(str.begin(), str.end(), isspace), str.end());
+                    return str;
+                };
 
-                if (line[0] == commenter || line.empty()) continue;
+                line.erase(line.begin(), std::find_if_not(line.begin(), line.end(), isspace));
+
+                if (line.empty() || line[0] == commenter) continue;
 
                 auto split = line.find(divider);
-                auto key = line.substr(0, split);
-                auto val = line.substr(split + 1);
+                auto key = strip(line.substr(0, split));
+                auto val = strip(line.substr(split + 1));
                 map_[key] = val;
             }
         } else {
-- 
2.43.0


From 4f29124521914162138081c79d3706e34d27eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 44/53] fix: a run to time zero never ends

---
 src/simulator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index a0ee5ce..88a60d6 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -404,11 +404,14 @@ namespace hub {
             iterator_.set_rtol(run_args.rtol);
         }
 
+        // the time tolerance is relative to the end time, or to the span of a run that ends at time zero
+        Scalar const time_scale = end_time == 0 ? static_cast<Scalar>(particles_.time()) : end_time;
+
         run_args.start_operations(particles_, step_size_);
 
         // Dipto's changes here
 
-        for (; std::abs((particles_.time() - end_time) / end_time) > time_rtol_ &&
+        for (; std::abs((particles_.time() - end_time) / time_scale) > time_rtol_ &&
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
-- 
2.43.0


From 48e95e4e49675c93d6cfd779fa10184537a0c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 45/53] fix: Radau methods end the program when a step is too
 long for the iteration to converge

---
 src/integrator/Gauss-Radau.hpp |  5 +++++
 src/ode-iterator/IAS15.hpp     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/integrator/Gauss-Radau.hpp b/src/integrator/Gauss-Radau.hpp
index fb7e82d..2534748 100644
--- a/src/integrator/Gauss-Radau.hpp
+++ b/src/integrator/Gauss-Radau.hpp
@@ -263,6 +263,11 @@ namespace hub::integrator {
 
         void check_particle_size(size_t var_num);
 
+        /**
+         * @brief Forget the coefficients predicted from earlier steps.
+         */
+        void restart() { var_num_ = 0; }
+
         template <typename ParticleSys>
         void integrate(ParticleSys &particles, Scalar step_size);
 
diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index 6d4a67c..be351c6 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -87,6 +87,7 @@ namespace hub::ode {
     template <typename U>
     auto IAS15<Integrator, ErrEstimator, StepController>::iterate(U& particles, Scalar macro_step_size) -> Scalar {
         Scalar iter_h = macro_step_size;
+        size_t cut = 0;
         for (size_t k = 0; k < max_iter_; ++k) {
             integrator_.correct(particles, iter_h);
             if (in_converged_window()) {
@@ -110,6 +111,15 @@ namespace hub::ode {
                     continue;
                 }
             }
+            if (k + 1 == max_iter_ && cut < max_iter_) {
+                // the iteration does not converge with this step, start over from scratch with a shorter one
+                integrator_.restart();
+                warmed_up = false;
+                reset_PC_iteration();
+                iter_h *= step_ctrl_.limiter_min();
+                ++cut;
+                k = 0;
+            }
         }
         spacehub_abort("Exceed the max iteration number");
     }
-- 
2.43.0


From 95c1e274c67007915375d76df2fb8cf5840d2e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 46/53] fix: the tenth order symplectic integrator is only of
 fourth order

The published set of coefficients was listed in the wrong order, and even the
right order of it misses one of the conditions of order ten. Use the 31 stage
coefficients of Kahan & Li (1997), which fulfil all of them.
---
 .../symplectic/symplectic-integrator.hpp      | 126 +++++++++---------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..346fdfd 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -297,68 +297,68 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        system.drift(-2.4079947800126503e-01 * step_size);
+        system.kick(-4.8159895600253005e-01 * step_size);
+        system.drift(-2.3898428142403522e-01 * step_size);
+        system.kick(3.6303931544595927e-03 * step_size);
+        system.drift(2.5271678437084549e-01 * step_size);
+        system.kick(5.0180317558723142e-01 * step_size);
+        system.drift(3.9239360091614700e-01 * step_size);
+        system.kick(2.8298402624506253e-01 * step_size);
+        system.drift(5.4500685259939241e-01 * step_size);
+        system.kick(8.0702967895372224e-01 * step_size);
+        system.drift(3.9046954920756499e-01 * step_size);
+        system.kick(-2.6090580538592204e-02 * step_size);
+        system.drift(-4.4947824100088646e-01 * step_size);
+        system.kick(-8.7286590146318066e-01 * step_size);
+        system.drift(-6.9830079104414322e-01 * step_size);
+        system.kick(-5.2373568062510578e-01 * step_size);
+        system.drift(-3.9258618812788963e-02 * step_size);
+        system.kick(4.4521844299952790e-01 * step_size);
+        system.drift(3.1567066923525350e-01 * step_size);
+        system.kick(1.8612289547097907e-01 * step_size);
+        system.drift(2.0874808706768133e-01 * step_size);
+        system.kick(2.3137327866438362e-01 * step_size);
+        system.drift(-1.4526854361990135e-01 * step_size);
+        system.kick(-5.2191036590418627e-01 * step_size);
+        system.drift(1.1337538562040334e-01 * step_size);
+        system.kick(7.4866113714499294e-01 * step_size);
+        system.drift(4.0769882451779849e-01 * step_size);
+        system.kick(6.6736511890604061e-02 * step_size);
+        system.drift(-3.6843336593305215e-01 * step_size);
+        system.kick(-8.0360324375670833e-01 * step_size);
+        system.drift(5.4443566300985818e-02 * step_size);
+        system.kick(9.1249037635867991e-01 * step_size);
+        system.drift(5.4443566300985818e-02 * step_size);
+        system.kick(-8.0360324375670833e-01 * step_size);
+        system.drift(-3.6843336593305215e-01 * step_size);
+        system.kick(6.6736511890604061e-02 * step_size);
+        system.drift(4.0769882451779849e-01 * step_size);
+        system.kick(7.4866113714499294e-01 * step_size);
+        system.drift(1.1337538562040334e-01 * step_size);
+        system.kick(-5.2191036590418627e-01 * step_size);
+        system.drift(-1.4526854361990135e-01 * step_size);
+        system.kick(2.3137327866438362e-01 * step_size);
+        system.drift(2.0874808706768133e-01 * step_size);
+        system.kick(1.8612289547097907e-01 * step_size);
+        system.drift(3.1567066923525350e-01 * step_size);
+        system.kick(4.4521844299952790e-01 * step_size);
+        system.drift(-3.9258618812788963e-02 * step_size);
+        system.kick(-5.2373568062510578e-01 * step_size);
+        system.drift(-6.9830079104414322e-01 * step_size);
+        system.kick(-8.7286590146318066e-01 * step_size);
+        system.drift(-4.4947824100088646e-01 * step_size);
+        system.kick(-2.6090580538592204e-02 * step_size);
+        system.drift(3.9046954920756499e-01 * step_size);
+        system.kick(8.0702967895372224e-01 * step_size);
+        system.drift(5.4500685259939241e-01 * step_size);
+        system.kick(2.8298402624506253e-01 * step_size);
+        system.drift(3.9239360091614700e-01 * step_size);
+        system.kick(5.0180317558723142e-01 * step_size);
+        system.drift(2.5271678437084549e-01 * step_size);
+        system.kick(3.6303931544595927e-03 * step_size);
+        system.drift(-2.3898428142403522e-01 * step_size);
+        system.kick(-4.8159895600253005e-01 * step_size);
+        system.drift(-2.4079947800126503e-01 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From c5643fd827029e1e78d3f16e7627d256ac244817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 47/53] fix: adaptive symplectic methods accept steps that miss
 the tolerance

A step (mostly the first) none of whose subdivisions met the tolerance was
accepted all the same; take it again with a shorter length instead.
---
 src/ode-iterator/sequent-iterator.hpp | 45 ++++++++++++++++-----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..7fff98e 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -117,10 +117,6 @@ namespace hub::ode {
 
         // Scalar last_error = math::max_value<Scalar>::value;
 
-        integrator_.integrate(particles, h);
-
-        particles.write_to_scalar_array(output_);
-
         /*for (size_t i = 0; i < max_iter_; ++i) {
             h /= 2;
             n_steps *= 2;
@@ -140,23 +136,36 @@ namespace hub::ode {
             //}
             std::swap(output_, dual_steps_output_);
         }*/
-        for (size_t i = 1; i <= max_iter_; ++i) {
-            h = macro_step_size / ns[i];
-            particles.read_from_scalar_array(input_);
-            for (size_t j = 0; j < ns[i]; ++j) {
-                integrator_.integrate(particles, h);
+        for (size_t cut = 0;; ++cut) {
+            h = macro_step_size;
+            integrator_.integrate(particles, h);
+            particles.write_to_scalar_array(output_);
+
+            for (size_t i = 1; i <= max_iter_; ++i) {
+                h = macro_step_size / ns[i];
+                particles.read_from_scalar_array(input_);
+                for (size_t j = 0; j < ns[i]; ++j) {
+                    integrator_.integrate(particles, h);
+                }
+                particles.write_to_scalar_array(dual_steps_output_);
+                auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
+                error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
+                // std::cout << i << ' ' << error << '\n';
+                if (error <= 1) {
+                    break;
+                }
+                std::swap(output_, dual_steps_output_);
             }
-            particles.write_to_scalar_array(dual_steps_output_);
-            auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
-            error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
-            // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
-                break;
+
+            Scalar next_step_size = macro_step_size * step_ctrl_.next_with_limiter(Integrator::order, error);
+            if (error <= 1 || cut == max_iter_) {
+                particles.read_from_scalar_array(dual_steps_output_);
+                return next_step_size;
             }
-            std::swap(output_, dual_steps_output_);
+            // no row met the tolerance: take the same step again, shorter
+            particles.read_from_scalar_array(input_);
+            macro_step_size = next_step_size;
         }
-        particles.read_from_scalar_array(dual_steps_output_);
-        return macro_step_size * step_ctrl_.next_with_limiter(Integrator::order, error);
     }
 
     template <typename Integrator, typename ErrEstimator, typename StepController>
-- 
2.43.0


From cb8569fe8590a8ef84968472716798e6420a57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 48/53] fix: the fixed-step Radau integrator uses its implicit
 step after a single correction

---
 src/integrator/Gauss-Radau.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/integrator/Gauss-Radau.hpp b/src/integrator/Gauss-Radau.hpp
index 2534748..676edbc 100644
--- a/src/integrator/Gauss-Radau.hpp
+++ b/src/integrator/Gauss-Radau.hpp
@@ -238,6 +238,7 @@ namespace hub::integrator {
 
         static constexpr size_t order{15};
         static constexpr size_t final_point{7};
+        static constexpr size_t max_corrections{16};
 
         GaussRadau();
 
@@ -352,7 +353,21 @@ namespace hub::integrator {
     template <typename TypeSystem>
     template <typename ParticleSys>
     void GaussRadau<TypeSystem>::integrate(ParticleSys &particles, Scalar step_size) {
-        correct(particles, step_size);
+        // the step is implicit: repeat the corrector until the coefficients stop changing
+        Scalar last_diff = math::max_value<Scalar>::value;
+        for (size_t i = 0; i < max_corrections; ++i) {
+            correct(particles, step_size);
+            Scalar diff = 0;
+            Scalar scale = 0;
+            for (size_t j = 0; j < var_num_; ++j) {
+                diff = std::max(diff, static_cast<Scalar>(fabs(dg_array_[j])));
+                scale = std::max(scale, static_cast<Scalar>(fabs(dydh_[j])));
+            }
+            if (diff <= math::epsilon_v<Scalar> * scale || (i > 3 && diff >= last_diff)) {
+                break;
+            }
+            last_diff = diff;
+        }
         evaluate(particles, step_size);
         predict(static_cast<Scalar>(1.0));
     }
-- 
2.43.0


From c762ee6d5d7aba2faae152049e0b6a27e123f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 49/53] fix: the general Bulirsch-Stoer solver accepts steps
 that miss the tolerance

The function-style midpoint rule was used with odd numbers of substeps, for
which its error has no expansion in the square of the substep.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 958e799..85d33da 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -411,6 +411,8 @@ namespace hub::ode {
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
         EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
+        // the smoothed midpoint rule has an expansion in h^2 only among even numbers of substeps
+        steps *= 2;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
         StateScalarArray data_mid(input_);
-- 
2.43.0


From b62cb1029ed90983def5792184a95f5a0a8d4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 50/53] fix: steps whose solution is not a number are accepted
 as free of error

The error norms dropped differences that are not numbers, so an overflown
trial step had no error at all.
---
 src/ode-iterator/IAS15.hpp                    |  3 ++-
 src/ode-iterator/error-checker/RMS.hpp        |  8 +++---
 .../error-checker/max-ratio-error.hpp         | 26 ++++++++++++++-----
 .../error-checker/worst-offender.hpp          | 20 +++++++++++---
 4 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index be351c6..be3c117 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -132,7 +132,8 @@ namespace hub::ode {
     template <typename Integrator, typename ErrEstimator, typename StepController>
     bool IAS15<Integrator, ErrEstimator, StepController>::in_converged_window() {
         Scalar PC_error = PC_err_checker_.error(integrator_.dy_h(), integrator_.diff_b6());
-        if (PC_error < static_cast<Scalar>(1) || PC_error >= last_PC_error_) {
+        bool const stalled = PC_error >= last_PC_error_ && PC_error < std::numeric_limits<Scalar>::infinity();
+        if (PC_error < static_cast<Scalar>(1) || stalled) {
             reset_PC_iteration();
             return true;
         } else {
diff --git a/src/ode-iterator/error-checker/RMS.hpp b/src/ode-iterator/error-checker/RMS.hpp
index c1a8bae..e8a9c00 100644
--- a/src/ode-iterator/error-checker/RMS.hpp
+++ b/src/ode-iterator/error-checker/RMS.hpp
@@ -83,10 +83,11 @@ namespace hub::ode {
         if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(fabs(y0[i]), fabs(y1[i])) * rtol_ + atol_;
-                if (scale == 0) {
+                auto const diff = fabs(y1[i] - y1_prime[i]);
+                if (scale == 0 && diff == diff) {
                     continue;
                 }
-                auto r = fabs(y1[i] - y1_prime[i]) / scale;
+                auto r = diff / scale;
                 error += r * r;
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
@@ -105,7 +106,8 @@ namespace hub::ode {
         } else {
             spacehub_abort("Unsupported array type!");
         }
-        return sqrt(error / size);
+        // the error of an overflown solution is not a number but unbounded
+        return error == error ? sqrt(error / size) : std::numeric_limits<Scalar>::infinity();
     }
 
     template <typename TypeSystem>
diff --git a/src/ode-iterator/error-checker/max-ratio-error.hpp b/src/ode-iterator/error-checker/max-ratio-error.hpp
index 1a6a5fc..9c18fd8 100644
--- a/src/ode-iterator/error-checker/max-ratio-error.hpp
+++ b/src/ode-iterator/error-checker/max-ratio-error.hpp
@@ -101,6 +101,20 @@ namespace hub::ode {
         Scalar error(Array1 const &scale, Array2 const &y1, Array3 const &y1_prime);
 
        private:
+        /**
+         * The larger of two differences, where one that is not a number (of an overflown solution) is unbounded.
+         */
+        static Scalar max_of(Scalar max_diff, Scalar diff) {
+            return diff == diff ? std::max(max_diff, diff) : std::numeric_limits<Scalar>::infinity();
+        }
+
+        /**
+         * The ratio of the largest difference to the largest scale; without any difference there is no error, whatever the scale.
+         */
+        static Scalar ratio_of(Scalar max_diff, Scalar max_scale) {
+            return max_diff > 0 && max_diff < std::numeric_limits<Scalar>::infinity() ? max_diff / max_scale : max_diff;
+        }
+
         Scalar atol_{0};
 
         Scalar rtol_{1e-12};
@@ -126,18 +140,18 @@ namespace hub::ode {
         Scalar max_scale = 0;
         if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
-                max_diff = std::max(max_diff, static_cast<Scalar>(fabs(diff[i])));
+                max_diff = max_of(max_diff, static_cast<Scalar>(fabs(diff[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + fabs(scale[i]) * rtol_));
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
-                max_diff = std::max(max_diff, static_cast<Scalar>(max_abs(diff[i])));
+                max_diff = max_of(max_diff, static_cast<Scalar>(max_abs(diff[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + max_abs(scale[i]) * rtol_));
             }
         } else {
             spacehub_abort("Unsupported array type!");
         }
-        return max_diff / max_scale;
+        return ratio_of(max_diff, max_scale);
     }
 
     template <typename TypeSystem>
@@ -148,17 +162,17 @@ namespace hub::ode {
         Scalar max_scale = 0;
         if constexpr (std::is_same_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
-                max_diff = std::max(max_diff, static_cast<Scalar>(fabs(y1_prime[i] - y1[i])));
+                max_diff = max_of(max_diff, static_cast<Scalar>(fabs(y1_prime[i] - y1[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + fabs(scale[i]) * rtol_));
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
-                max_diff = std::max(max_diff, static_cast<Scalar>(max_abs(y1_prime[i] - y1[i])));
+                max_diff = max_of(max_diff, static_cast<Scalar>(max_abs(y1_prime[i] - y1[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + max_abs(scale[i]) * rtol_));
             }
         } else {
             spacehub_abort("Unsupported array type!");
         }
-        return max_diff / max_scale;
+        return ratio_of(max_diff, max_scale);
     }
 }  // namespace hub::ode
diff --git a/src/ode-iterator/error-checker/worst-offender.hpp b/src/ode-iterator/error-checker/worst-offender.hpp
index 341e525..41ca337 100644
--- a/src/ode-iterator/error-checker/worst-offender.hpp
+++ b/src/ode-iterator/error-checker/worst-offender.hpp
@@ -58,6 +58,18 @@ namespace hub::ode {
         Scalar error(Array1 const &y0, Array2 const &diff);
 
        private:
+        /**
+         * The larger of an error and the ratio of a difference to its scale. A ratio that is not a number (of an overflown
+         * solution) is an unbounded error; only components without difference do not count, whatever their scale.
+         */
+        static Scalar worst_of(Scalar max_err, Scalar diff, Scalar scale) {
+            if (diff == 0) {
+                return max_err;
+            }
+            Scalar const ratio = diff / scale;
+            return ratio == ratio ? math::max(max_err, ratio) : std::numeric_limits<Scalar>::infinity();
+        }
+
         Scalar atol_{1e-13};
 
         Scalar rtol_{1e-13};
@@ -86,13 +98,13 @@ namespace hub::ode {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(fabs(y1[i]), fabs(y0[i]));
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-                max_err = math::max(max_err, fabs(y1_prime[i] - y1[i]) / (atol_ + scale * rtol_));
+                max_err = worst_of(max_err, fabs(y1_prime[i] - y1[i]), atol_ + scale * rtol_);
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(max_abs(y1[i]), max_abs(y0[i]));
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-                max_err = math::max(max_err, max_abs(y1_prime[i] - y1[i]) / (atol_ + scale * rtol_));
+                max_err = worst_of(max_err, max_abs(y1_prime[i] - y1[i]), atol_ + scale * rtol_);
             }
         } else {
             spacehub_abort("Unsupported array type!");
@@ -109,13 +121,13 @@ namespace hub::ode {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = fabs(y0[i]);
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-                max_err = math::max(max_err, fabs(diff[i]) / (atol_ + scale * rtol_));
+                max_err = worst_of(max_err, fabs(diff[i]), atol_ + scale * rtol_);
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = max_abs(y0[i]);
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-                max_err = math::max(max_err, max_abs(diff[i]) / (atol_ + scale * rtol_));
+                max_err = worst_of(max_err, max_abs(diff[i]), atol_ + scale * rtol_);
             }
         } else {
             spacehub_abort("Unsupported array type!");
-- 
2.43.0


From 3286ee89dd913bb844f04706e7c54ab7be8f813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 51/53] fix: Radau methods take a single increase of the
 correction for convergence and accept unconverged steps

---
 src/ode-iterator/IAS15.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index be3c117..6f381b4 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -64,6 +64,7 @@ namespace hub::ode {
         StepController step_ctrl_;
         ErrEstimator PC_err_checker_;
         Scalar last_PC_error_{math::max_value<Scalar>::value};
+        bool stalled_{false};
         static constexpr size_t max_iter_{30};
         bool warmed_up{false};
 
@@ -127,17 +128,20 @@ namespace hub::ode {
     template <typename Integrator, typename ErrEstimator, typename StepController>
     void IAS15<Integrator, ErrEstimator, StepController>::reset_PC_iteration() {
         last_PC_error_ = math::max_value<Scalar>::value;
+        stalled_ = false;
     }
 
     template <typename Integrator, typename ErrEstimator, typename StepController>
     bool IAS15<Integrator, ErrEstimator, StepController>::in_converged_window() {
         Scalar PC_error = PC_err_checker_.error(integrator_.dy_h(), integrator_.diff_b6());
         bool const stalled = PC_error >= last_PC_error_ && PC_error < std::numeric_limits<Scalar>::infinity();
-        if (PC_error < static_cast<Scalar>(1) || stalled) {
+        // a single increase may happen on the way; only two in a row mean that rounding is all that is left
+        if (PC_error < static_cast<Scalar>(1) || (stalled && stalled_)) {
             reset_PC_iteration();
             return true;
         } else {
-            last_PC_error_ = PC_error;
+            stalled_ = stalled;
+            last_PC_error_ = math::min(last_PC_error_, PC_error);
             return false;
         }
     }
-- 
2.43.0


From fcedbd16515f4fb57483e51df97109189306b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:44 +0000
Subject: [PATCH 52/53] fix: automatic output names repeat when prefixes
 alternate within a second, the clock returns or threads ask

auto_name only compared a new name with the last one handed out, so asking for
"a_", "b_" and "a_" within one second gave the same file name twice, and so
did a clock set back (or the end of summer time). Threads raced on the two
static variables and on std::localtime's buffer. Remember how often each name
was handed out, under a lock.
---
 src/tools/auto-name.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..fc79d46 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -6,14 +6,18 @@
 
 #include <ctime>
 #include <iomanip>
+#include <mutex>
 #include <sstream>
 #include <string>
+#include <unordered_map>
 
 namespace hub::tools {
 
     std::string auto_name(std::string const &prefix = "space_") {
-        static int duplicate = 1;
-        static std::string last_name;
+        static std::mutex mutex;
+        static std::unordered_map<std::string, int> used;
+
+        std::lock_guard<std::mutex> lock{mutex};
 
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
@@ -22,11 +26,11 @@ namespace hub::tools {
 
         auto name = prefix + oss.str();
 
-        if (name == last_name) {
-            return name + '(' + std::to_string(duplicate++) + ").dat";
+        auto duplicate = used[name]++;
+
+        if (duplicate > 0) {
+            return name + '(' + std::to_string(duplicate) + ").dat";
         } else {
-            duplicate = 1;
-            last_name = name;
             return name + ".dat";
         }
     }
-- 
2.43.0


From 51f5386a13ed84cabf733c6d5d37385e34ea7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:45 +0000
Subject: [PATCH 53/53] fix: the Lidov-Kozai timescale multiplies the inner
 period by the mass instead of dividing

a^3 / G * m_in is (a^3 / G) * m_in; the period needs a^3 / (G * m_in).
---
 src/secular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/secular.hpp b/src/secular.hpp
index bd69572..f1c8000 100644
--- a/src/secular.hpp
+++ b/src/secular.hpp
@@ -36,7 +36,7 @@ namespace hub::secular {
     template <typename T = double>
     T ELK_quad_timescale(T m1, T m2, T m3, T a1, T a2, T e2) {
         T m_in = m1 + m2;
-        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / consts::G * m_in);
+        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / (consts::G * m_in));
         T a_ratio_eff = a2 * sqrt(1 - e2 * e2) / a1;
         return P * m_in / m3 * a_ratio_eff * a_ratio_eff * a_ratio_eff;
     }
-- 
2.43.0

