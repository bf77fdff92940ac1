From 48b44febe818db52f91d37897c6e1ed639707d78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 01/24] fix: register grain representations with the archive so
 checkpoints with grains can be written

---
 include/pf-applications/grain_tracker/representation.h | 3 +++
 include/pf-applications/grain_tracker/segment.h        | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/pf-applications/grain_tracker/representation.h b/include/pf-applications/grain_tracker/representation.h
index e864cc0..b4e99eb 100644
--- a/include/pf-applications/grain_tracker/representation.h
+++ b/include/pf-applications/grain_tracker/representation.h
@@ -19,8 +19,11 @@
 
 #include <pf-applications/base/debug.h>
 
+#include <boost/serialization/array.hpp>
 #include <boost/serialization/export.hpp>
+#include <boost/serialization/map.hpp>
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/utility.hpp>
 
 #include <pf-applications/grain_tracker/ellipsoid.h>
 
diff --git a/include/pf-applications/grain_tracker/segment.h b/include/pf-applications/grain_tracker/segment.h
index 03a51c1..bc7c99e 100644
--- a/include/pf-applications/grain_tracker/segment.h
+++ b/include/pf-applications/grain_tracker/segment.h
@@ -122,6 +122,12 @@ namespace GrainTracker
     void
     serialize(Archive &ar, const unsigned int /*version*/)
     {
+      // The representation is stored via a pointer to its base class, so the
+      // archive has to know all types it can point to
+      ar.template register_type<RepresentationSpherical<dim>>();
+      ar.template register_type<RepresentationElliptical<dim>>();
+      ar.template register_type<RepresentationWavefront<dim>>();
+
       ar &center;
       ar &radius;
       ar &measure;
-- 
2.43.0


From d6c67b811f88321ca54afc3e3ccd1b68ed0a0d02 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 02/24] fix: store the principal axes of an ellipsoid in
 archives

---
 include/pf-applications/grain_tracker/ellipsoid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 3ea3c0a..8d326f2 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -202,6 +202,7 @@ namespace GrainTracker
       ar &radii;
       ar &r_min;
       ar &r_max;
+      ar &axes;
       ar &center;
     }
 
-- 
2.43.0


From 73c050ff822ea635d2a4b138a97fb4e3fff98f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 03/24] fix: compare the candidates of all segments when
 tracking a multi-segment grain

---
 include/pf-applications/grain_tracker/tracking.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracking.h b/include/pf-applications/grain_tracker/tracking.h
index 7bc200f..60270fb 100644
--- a/include/pf-applications/grain_tracker/tracking.h
+++ b/include/pf-applications/grain_tracker/tracking.h
@@ -130,11 +130,11 @@ namespace GrainTracker
                     // Perform manual sorting among the candidates, since
                     // bgi::nearest() outputs the closest to the face of the
                     // box, not the box having the closest center. Note that we
-                    // also compute distances if old_grain_id has been set -
-                    // this may happen for the situation when a new grain has
-                    // multiple segments.
+                    // also compute distances if a new grain has multiple
+                    // segments, since then the candidates found for all of
+                    // them have to be compared.
                     if (result.size() > 1 ||
-                        old_grain_id != numbers::invalid_unsigned_int)
+                        new_grains.at(grain_id).n_segments() > 1)
                       {
                         for (const auto &id : result)
                           {
-- 
2.43.0


From 42d2dacb5f0bdafd2d39e52348a8e20135d54fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 04/24] fix: take the largest value over all local fragments of
 a particle

---
 .../pf-applications/grain_tracker/distributed_stitching.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 88c6108..149366a 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -244,7 +244,10 @@ namespace GrainTracker
 
           AssertIndexRange(unique_id, n_particles);
 
-          particle_max_values[unique_id] = local_particle_max_values[local_id];
+          // Multiple local particles may constitute the same global one
+          particle_max_values[unique_id] =
+            std::max(particle_max_values[unique_id],
+                     local_particle_max_values[local_id]);
         }
 
     // Reduce information - particles max values
-- 
2.43.0


From bd12ab2d97d18c887e7c62f197bf406b567e0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 05/24] fix: flood across a refinement interface only into the
 children sharing the face

---
 .../grain_tracker/distributed_stitching.h     | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 149366a..7118ebd 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -87,15 +87,29 @@ namespace GrainTracker
 
     unsigned int counter = 1;
 
+    const auto flood = [&](const auto &neighbor) {
+      counter += run_flooding<dim>(neighbor,
+                                   solution,
+                                   particle_ids,
+                                   id,
+                                   max_value,
+                                   threshold_lower,
+                                   invalid_particle_id);
+    };
+
     for (const auto face : cell->face_indices())
       if (cell->at_boundary(face) == false)
-        counter += run_flooding<dim>(cell->neighbor(face),
-                                     solution,
-                                     particle_ids,
-                                     id,
-                                     max_value,
-                                     threshold_lower,
-                                     invalid_particle_id);
+        {
+          // Visit only those children of the neighbor which share this face
+          if (cell->neighbor(face)->has_children())
+            for (unsigned int subface = 0;
+                 subface < GeometryInfo<dim>::n_subfaces(
+                             dealii::internal::SubfaceCase<dim>::case_isotropic);
+                 ++subface)
+              flood(cell->neighbor_child_on_subface(face, subface));
+          else
+            flood(cell->neighbor(face));
+        }
 
     return counter;
   }
-- 
2.43.0


From 93873507b68b041bd85ef7870f2e0115d1f268dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 06/24] fix: do not access the last active order parameter if
 there are no grains

---
 include/pf-applications/grain_tracker/tracker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index ef85d8b..6bbfa4b 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1805,6 +1805,10 @@ namespace GrainTracker
             }
         }
 
+      // Nothing to renumber if there are no grains at all
+      if (grains.empty())
+        return std::make_tuple(n_collisions, grains_reassigned);
+
       // Remove dangling order parameters if any
       const unsigned int max_order_parameter_id =
         *active_order_parameters.rbegin();
-- 
2.43.0


From 02c094fd8065e4ba2d9e262a33952d3d49a5cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 07/24] fix: do not sum up equally remote points of different
 ranks

---
 .../grain_tracker/distributed_stitching.h        | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 7118ebd..29d7cd2 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -389,11 +389,23 @@ namespace GrainTracker
     if (evaluate_remotes)
       {
         // If the current rank is not the owner of the furthest point, then we
-        // nullify it since we perform a global summation later.
+        // nullify it since we perform a global summation later. If multiple
+        // ranks have points equally far, then the first of them is the owner.
+        const unsigned int rank = Utilities::MPI::this_mpi_process(comm);
+
+        std::vector<unsigned int> owners(particle_radii.size(),
+                                         numbers::invalid_unsigned_int);
         for (unsigned int unique_id = 0; unique_id < particle_radii.size();
              ++unique_id)
           if (std::abs(particle_radii[unique_id] -
-                       particle_radii_local[unique_id]) > 1e-16)
+                       particle_radii_local[unique_id]) <= 1e-16)
+            owners[unique_id] = rank;
+
+        Utilities::MPI::min(owners, comm, owners);
+
+        for (unsigned int unique_id = 0; unique_id < particle_radii.size();
+             ++unique_id)
+          if (owners[unique_id] != rank)
             particle_remotes[unique_id] = Point<dim>();
 
         // Perform global communication
-- 
2.43.0


From fdb52e3bad47058009544944f8cfb8d4317783be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 08/24] fix: do not colour an empty set of grains when forcing
 a reassignment

---
 include/pf-applications/grain_tracker/tracker.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index 6bbfa4b..e95d994 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1591,6 +1591,10 @@ namespace GrainTracker
       active_order_parameters = extract_active_order_parameter_ids(grains);
       unsigned int n_order_parameters = active_order_parameters.size();
 
+      // Nothing to color or renumber if there are no grains at all
+      if (grains.empty())
+        return std::make_tuple(0u, grains_reassigned);
+
       std::set<unsigned int> remap_candidates;
 
       // Base grain to compare with
@@ -1805,10 +1809,6 @@ namespace GrainTracker
             }
         }
 
-      // Nothing to renumber if there are no grains at all
-      if (grains.empty())
-        return std::make_tuple(n_collisions, grains_reassigned);
-
       // Remove dangling order parameters if any
       const unsigned int max_order_parameter_id =
         *active_order_parameters.rbegin();
-- 
2.43.0


From 13a4cb718273b2ae4aea05898bbcde22f7de0886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 09/24] fix: do not extrapolate a piecewise function with a
 single entry

---
 include/pf-applications/numerics/functions.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pf-applications/numerics/functions.h b/include/pf-applications/numerics/functions.h
index 15083df..9209707 100644
--- a/include/pf-applications/numerics/functions.h
+++ b/include/pf-applications/numerics/functions.h
@@ -72,6 +72,11 @@ public:
       {
         return 0.;
       }
+    else if (pairs.size() == 1)
+      {
+        // There is no slope to extrapolate with
+        return pairs.front().second;
+      }
     else
       {
         auto it = std::lower_bound(pairs.begin(),
-- 
2.43.0


From 3ee04f676cf382b56cca21dd8fbcaf223118816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 10/24] fix: keep block indices up to date in views and after
 moving blocks

---
 include/pf-applications/lac/dynamic_block_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pf-applications/lac/dynamic_block_vector.h b/include/pf-applications/lac/dynamic_block_vector.h
index e84f10d..6401c5d 100644
--- a/include/pf-applications/lac/dynamic_block_vector.h
+++ b/include/pf-applications/lac/dynamic_block_vector.h
@@ -185,6 +185,8 @@ namespace dealii
             const_cast<DynamicBlockVector<T> *>(view.get())
               ->blocks.push_back(blocks[i]);
 
+          const_cast<DynamicBlockVector<T> *>(view.get())->collect_sizes();
+
           return view;
         }
 
@@ -199,6 +201,8 @@ namespace dealii
           for (unsigned int i = start; i < end; ++i)
             view->blocks.push_back(blocks[i]);
 
+          view->collect_sizes();
+
           return view;
         }
 
@@ -256,6 +260,8 @@ namespace dealii
               blocks[i] = blocks[i + 1];
 
           blocks[to] = tmp;
+
+          collect_sizes();
         }
 
         void
-- 
2.43.0


From c65986f1295d54df48fb956ff9ec85fd5064f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 11/24] fix: load the step size of time integrator data without
 a scheme

---
 include/pf-applications/time_integration/time_integrator_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_integrator_data.h b/include/pf-applications/time_integration/time_integrator_data.h
index 8f1229d..068e258 100644
--- a/include/pf-applications/time_integration/time_integrator_data.h
+++ b/include/pf-applications/time_integration/time_integrator_data.h
@@ -197,7 +197,7 @@ namespace TimeIntegration
     load(Archive &ar, const unsigned int /*version*/)
     {
       ar &order;
-      dt.resize(order);
+      dt.resize(std::max(order, 1U));
       weights.resize(order + 1);
 
       ar &boost::serialization::make_array(dt.data(), dt.size());
-- 
2.43.0


From 83ba6983aca042df1a2a51d42fb697877923af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 12/24] fix: domain of a particle cloud at negative coordinates

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 49d5626..11d8360 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -71,7 +71,7 @@ namespace Sintering
       for (unsigned int i = 0; i < dim; i++)
         {
           boundaries.first[i]  = std::numeric_limits<double>::max();
-          boundaries.second[i] = std::numeric_limits<double>::min();
+          boundaries.second[i] = std::numeric_limits<double>::lowest();
         }
 
       for (const auto &p : particles)
-- 
2.43.0


From 215387fbf137b9bb33dba4d2c4cf13e718629bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 13/24] fix: contact axis pointing away from the orientation
 point

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 11d8360..771abb7 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -359,7 +359,7 @@ namespace Sintering
 
       ez_temp /= ez_temp.norm();
 
-      if (std::abs(ex * ez_temp - 1) < tol)
+      if (std::abs(std::abs(ex * ez_temp) - 1) < tol)
         {
           return false;
         }
-- 
2.43.0


From 21d82aee527482ed23370f34dda4a35e2dadf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 14/24] fix: neck of two particles lying beyond the center of
 one of them

---
 .../pf-applications/sintering/initial_values_cloud.h   | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 771abb7..cbd7043 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -123,15 +123,11 @@ namespace Sintering
                   // an overlap
                   if (distance <= dist_max - 1e-3 * dist_max)
                     {
-                      // Compute the radius of the neck
-                      const double s = (r1 + r2 + distance) / 2;
-                      const double r0 =
-                        2 / distance *
-                        std::sqrt(s * (s - r1) * (s - r2) * (s - distance));
-
                       // Distance from the center of particle 1 to the center of
                       // the neck
-                      const double dm = std::sqrt(r1 * r1 - r0 * r0);
+                      const double dm =
+                        (distance * distance + r1 * r1 - r2 * r2) /
+                        (2 * distance);
 
                       // Compute unitary vector ey of the y-axis
                       dealii::Point<dim> ey;
-- 
2.43.0


From f25aae0ed875ee18eb043b59ca3abccf7e69b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 15/24] fix: distance to the contour of a grain for points on
 its edges

---
 .../pf-applications/sintering/initial_values_microstructure.h  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
index 6c4faac..95f44fa 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
@@ -114,8 +114,7 @@ namespace Sintering
             else if (r > 1)
               dist = p2.distance(p);
             else
-              dist = std::sqrt(p.distance_square(p1) -
-                               r * r * p1.distance_square(p2));
+              dist = p.distance(p1 + r * p1p2);
 
             dist_min = std::min(dist, dist_min);
           }
-- 
2.43.0


From 6d985afe50335f1f6bd8fbf1db79f237941a3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 16/24] fix: adjust the first time step if it exceeds the end
 time

---
 .../sintering/include/pf-applications/sintering/driver.h   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 475cddd..b41b773 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1927,6 +1927,13 @@ namespace Sintering
 
       const double tol_termination = 1e-9;
 
+      // Adjust the first timestep if it exceeds time end
+      if (t + dt > params.time_integration_data.time_end)
+        {
+          dt = params.time_integration_data.time_end - t;
+          sintering_data.time_data.replace_dt(dt);
+        }
+
       // run time loop
       {
         while (std::abs(t - params.time_integration_data.time_end) >
-- 
2.43.0


From 7eedcc5553619a5eb3c683be0fc38f30e4fff096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 17/24] fix: save restart data after the time step size has
 been updated

---
 .../sintering/include/pf-applications/sintering/driver.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index b41b773..6c572f7 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2539,6 +2539,10 @@ namespace Sintering
                                   additional_output);
                   }
 
+                // Update and advance time step size, the restart data have to
+                // contain the step size the simulation proceeds with
+                sintering_data.time_data.update_dt(dt);
+
                 // Save restart point
                 if (is_last_time_step || restart_predicate.now(t))
                   {
@@ -2698,9 +2702,6 @@ namespace Sintering
                       }
                     pcout << std::endl;
                   }
-
-                // Update and advance time step size
-                sintering_data.time_data.update_dt(dt);
               }
             else
               {
-- 
2.43.0


From 2591055ef2cfde9db4e66ccb255e37862fc62b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 18/24] fix: repartition on restart according to the format of
 the restart files

---
 .../sintering/include/pf-applications/sintering/driver.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 6c572f7..9c7f957 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -402,7 +402,7 @@ namespace Sintering
       // non-flexible restart filed, we need to repartition here, since
       // Triangulation::load() does not guarantee that the saved and loaded
       // files are identical
-      if (params.restart_data.flexible_output == false)
+      if (flexible_output == false)
         tria.repartition();
 
       // 3) initialize data structures
-- 
2.43.0


From eddd5cfcd6c3be35864bdb93fbaf9f5448a0d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 19/24] fix: keep pending mesh refinement and grain tracking in
 restart data

---
 .../include/pf-applications/sintering/driver.h       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 9c7f957..dde0a92 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -158,6 +158,10 @@ namespace Sintering
     unsigned int restart_counter;
     double       t;
 
+    // Mesh refinement and grain tracker runs which are due before the next step
+    bool do_mesh_refinement;
+    bool do_grain_tracker;
+
     std::map<std::string, unsigned int> counters;
 
     Problem(const Parameters                   &params,
@@ -197,6 +201,8 @@ namespace Sintering
       n_failed_residual_evaluations  = 0;
       max_reached_dt                 = 0.0;
       restart_counter                = 0;
+      do_mesh_refinement             = false;
+      do_grain_tracker               = false;
       counters                       = {};
 
       // Current time
@@ -496,6 +502,8 @@ namespace Sintering
       ar &max_reached_dt;
       ar &restart_counter;
       ar &t;
+      ar &do_mesh_refinement;
+      ar &do_grain_tracker;
       ar &counters;
     }
 
@@ -1921,9 +1929,7 @@ namespace Sintering
                         additional_output);
         }
 
-      bool has_converged      = true;
-      bool do_mesh_refinement = false;
-      bool do_grain_tracker   = false;
+      bool has_converged = true;
 
       const double tol_termination = 1e-9;
 
-- 
2.43.0


From 12bcd7371d47519f2c1df6bc87ebf8b11e1527e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 20/24] fix: read non-flexible restart files with fewer vectors
 than saved

---
 .../pf-applications/sintering/driver.h        | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index dde0a92..176de10 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -425,26 +425,28 @@ namespace Sintering
           if (n_blocks_total < solution_ptr.size())
             solution_ptr.resize(n_blocks_total);
 
+          // In order to perform deserialization, we need to add dummy
+          // vectors which will get deleted at the end. The number of vectors
+          // has to agree with the one saved also for non-flexible restart
+          // files, since the position of the data in the file depends on it.
+          std::vector<std::shared_ptr<typename VectorType::BlockType>>
+            dummy_vecs;
+          if (n_blocks_total > solution_ptr.size())
+            for (unsigned int i = solution_ptr.size(); i < n_blocks_total;
+                 ++i)
+              {
+                auto dummy =
+                  std::make_shared<typename VectorType::BlockType>(
+                    *solution_ptr[0]);
+                dummy_vecs.push_back(dummy);
+                solution_ptr.push_back(dummy.get());
+              }
+
           if (flexible_output)
             {
               SolutionTransfer<dim, typename VectorType::BlockType>
                 solution_transfer(dof_handler);
 
-              // In order to perform deserialization, we need to add dummy
-              // vectors which will get deleted at the end
-              std::vector<std::shared_ptr<typename VectorType::BlockType>>
-                dummy_vecs;
-              if (n_blocks_total > solution_ptr.size())
-                for (unsigned int i = solution_ptr.size(); i < n_blocks_total;
-                     ++i)
-                  {
-                    auto dummy =
-                      std::make_shared<typename VectorType::BlockType>(
-                        *solution_ptr[0]);
-                    dummy_vecs.push_back(dummy);
-                    solution_ptr.push_back(dummy.get());
-                  }
-
               solution_transfer.deserialize(solution_ptr);
             }
           else
-- 
2.43.0


From 00a8c686259dd3fd63adafb04393be2c9b73c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 21/24] fix: update ghost values of old solutions read from
 restart files

---
 .../sintering/include/pf-applications/sintering/driver.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 176de10..162700f 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1839,6 +1839,10 @@ namespace Sintering
       initialize_solution(
         solution_history.filter(true, false, true).get_all_blocks_raw(), timer);
 
+      // The old solutions might have been read from the restart files, the
+      // time discretization expects them to be ghosted
+      solution_history.filter(false, false, true).update_ghost_values();
+
       // initial local refinement
       if (t == params.time_integration_data.time_start &&
           (params.adaptivity_data.refinement_frequency > 0 ||
-- 
2.43.0


From 2dbc04ab34e45526c7f2b14e136a0b3b8664838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 22/24] fix: linear predictor used outdated solutions after
 AMR, remapping and restarts

---
 .../sintering/include/pf-applications/sintering/driver.h    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 162700f..0c6f480 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2052,7 +2052,11 @@ namespace Sintering
                       {
                         const auto fac = dt0 / dt1;
 
-                        solution_history.extrapolate(extrap, fac);
+                        // The recent old solution is neither transferred
+                        // during AMR nor remapped nor saved for restarts, so
+                        // use the old ones
+                        solution_history.filter(true, false, true)
+                          .extrapolate(extrap, fac);
                       }
                   }
                 else
-- 
2.43.0


From 9b384edb496b0dd4164afd0f06e555b19117d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 23/24] fix: linear predictor without enough history started
 from zero

---
 .../include/pf-applications/sintering/driver.h    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 0c6f480..7d60726 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2042,15 +2042,18 @@ namespace Sintering
                       extrap, midpoint);
                     extrap.sadd(-dt, solution);
                   }
-                else if (params.time_integration_data.predictor == "Linear" &&
-                         sintering_data.time_data.get_order() > 1)
+                else if (params.time_integration_data.predictor == "Linear")
                   {
-                    const auto dt0 = sintering_data.time_data.get_all_dt()[0];
-                    const auto dt1 = sintering_data.time_data.get_all_dt()[1];
+                    const auto &dts = sintering_data.time_data.get_all_dt();
 
-                    if (dt0 > 0 && dt1 > 0)
+                    // Proceed with the current solution if there is not
+                    // enough history to extrapolate
+                    extrap = solution;
+
+                    if (sintering_data.time_data.get_order() > 1 &&
+                        dts[0] > 0 && dts[1] > 0)
                       {
-                        const auto fac = dt0 / dt1;
+                        const auto fac = dts[0] / dts[1];
 
                         // The recent old solution is neither transferred
                         // during AMR nor remapped nor saved for restarts, so
-- 
2.43.0


From 3f8959f5fa82f2e6fd77b65afc501d9b477f17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 24/24] fix: fast reassignment always fell back to recoloring
 all grains

---
 include/pf-applications/grain_tracker/tracker.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index e95d994..7f0943b 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1656,9 +1656,9 @@ namespace GrainTracker
            * too large number of order parameters exceeding the maximum allowed
            * limit, the complete graph colorization is then attempted to be
            * performed. */
-          bool perform_coloring = !try_fast_reassignment;
+          bool perform_coloring = !try_fast_reassignment || force_reassignment;
 
-          if (try_fast_reassignment)
+          if (!perform_coloring)
             {
               ScopedName sc("fast_reassignment");
               MyScope    scope(timer, sc, timer.is_enabled());
@@ -1738,8 +1738,10 @@ namespace GrainTracker
               if (!perform_coloring)
                 perform_coloring =
                   std::any_of(sp.begin(), sp.end(), [&](const auto &entry) {
-                    return provisional_colors[entry.row()] ==
-                           provisional_colors[entry.column()];
+                    // Diagonal entries always exist in a square pattern
+                    return entry.row() != entry.column() &&
+                           provisional_colors[entry.row()] ==
+                             provisional_colors[entry.column()];
                   });
 
               if (!perform_coloring)
@@ -1752,6 +1754,10 @@ namespace GrainTracker
 
                       grains_reassigned = true;
                     }
+
+              active_order_parameters =
+                extract_active_order_parameter_ids(grains);
+              n_order_parameters = active_order_parameters.size();
             }
 
           if (perform_coloring)
-- 
2.43.0

