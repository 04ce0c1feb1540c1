From f23906c36f135c09a5e4fa8c92e300d24189adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 01/86] fix: allocate enough room for the simulation duration
 string

get_simulation_duration() formatted into a one-byte heap buffer (and leaked
it), overflowing the heap on every probe dump.
---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..9698ce1 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,7 +66,7 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
-- 
2.43.0


From d550086147d72016cbc17a28f10ecf2c638ec577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 02/86] fix: overlay corners of non-square domains with proper
 sizes

---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From a6b4728e29805e3084e31e009886e02c0359febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 03/86] fix: overlay corners of diagonally adjacent domains in
 both directions

---
 include/algo/grid.hpp   | 16 ++++++++++++++++
 include/algo/grid3d.hpp |  7 +++++++
 src/SMB.cpp             | 19 +++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index ff18a30..56fe282 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -150,6 +150,22 @@ public:
     }
   };
 
+  void overlay_yx(Grid<T> rhsgrid)
+  // corner with the grid, that is next by x and previous by y
+  {
+    unsigned int rhs_y_size = rhsgrid.y_real_size;
+
+    for (unsigned int d = 0; d < o_s; ++d)
+      for (unsigned int e = 0; e < o_s; ++e)
+      {
+        rhsgrid.grid[2*o_s-d-1][rhs_y_size-2*o_s+e] += grid[x_real_size-1-d][e];
+        grid[x_real_size-2*o_s+d][2*o_s-e-1] += rhsgrid.grid[d][rhs_y_size-1-e];
+
+        rhsgrid.grid[d][rhs_y_size-1-e] = grid[x_real_size-2*o_s+d][2*o_s-e-1];
+        grid[x_real_size-1-d][e] = rhsgrid.grid[2*o_s-1-d][rhs_y_size-2*o_s+e];
+      }
+  };
+
   void copy(Grid<T> rhs)
   // fully copy rhs grid to current grid element-by-element
   {
diff --git a/include/algo/grid3d.hpp b/include/algo/grid3d.hpp
index b525241..05d2f99 100644
--- a/include/algo/grid3d.hpp
+++ b/include/algo/grid3d.hpp
@@ -61,6 +61,13 @@ public:
     z_component.overlay_xy(trgrid.z_component);
   };
 
+  void overlay_yx(Grid3D<T> brgrid)
+  {
+    r_component.overlay_yx(brgrid.r_component);
+    phi_component.overlay_yx(brgrid.phi_component);
+    z_component.overlay_yx(brgrid.z_component);
+  };
+
   void overlay_set(T value)
   {
     r_component.overlay_set(value);
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..ee460a0 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -592,6 +592,12 @@ void SMB::current_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->current->current.overlay_xy(dst_domain->current->current);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->current->current.overlay_yx(dst_domain->current->current);
+          }
         }
     }
 
@@ -819,6 +825,13 @@ void SMB::field_h_overlay ()
             sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
             sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->maxwell_solver->field_h.overlay_yx(dst_domain->maxwell_solver->field_h);
+            sim_domain->maxwell_solver->field_h_at_et.overlay_yx(dst_domain->maxwell_solver->field_h_at_et);
+          }
         }
     }
 
@@ -1040,6 +1053,12 @@ void SMB::field_e_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->maxwell_solver->field_e.overlay_yx(dst_domain->maxwell_solver->field_e);
+          }
         }
     }
 
-- 
2.43.0


From 3691b7dfc1a48954998cadb70e27002ab330b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 04/86] fix: respect domains of different size, when the grid
 is not divisible by domains amount

---
 include/algo/grid.hpp | 21 ++++++++-------------
 src/SMB.cpp           | 23 +++++++++++++----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 56fe282..eb1ec6a 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -134,20 +134,15 @@ public:
 
   void overlay_xy(Grid<T> rhsgrid)
   {
-    if (x_real_size == rhsgrid.x_real_size && y_real_size == rhsgrid.y_real_size)
-      for (unsigned int d = 0; d < o_s; ++d)
-        for (unsigned int e = 0; e < o_s; ++e)
-        {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
-          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+    for (unsigned int d = 0; d < o_s; ++d)
+      for (unsigned int e = 0; e < o_s; ++e)
+      {
+        rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+        grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
-        }
-    else
-    {
-      LOG_S(FATAL) << "overlay_xy: X or Y sizes of bottom-left and top-right grid are not equal. Can not overlay";
-    }
+        rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+        grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+      }
   };
 
   void overlay_yx(Grid<T> rhsgrid)
diff --git a/src/SMB.cpp b/src/SMB.cpp
index ee460a0..4d74b8b 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -94,7 +94,8 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
 
 #ifdef ENABLE_PML
       Geometry *geom_domain = new Geometry (
-        { geometry->size[0] / r_domains, geometry->size[1] / z_domains},
+        { geometry->cell_size[0] * (top_r - bot_r),
+          geometry->cell_size[1] * (right_z - left_z) },
         { geometry->global_size[0], geometry->global_size[1] }, // global size
         { bot_r, left_z, top_r, right_z },
         { 0, pml_l_z0, pml_l_rwall, pml_l_zwall, },
@@ -110,8 +111,8 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
       // /WORKAROUND
 #else
       Geometry *geom_domain = new Geometry (
-        { geometry->size[0] / r_domains,
-          geometry->size[1] / z_domains },
+        { geometry->cell_size[0] * (top_r - bot_r),
+          geometry->cell_size[1] * (right_z - left_z) },
         { bot_r, left_z, top_r, right_z },
         { wall_r0,
           wall_z0,
@@ -241,13 +242,15 @@ void SMB::particles_runaway_collector ()
                   int z_cell = P_CELL_Z((*o));
 
                   // this is unshifted domain numbers (local for SMB)
-                  unsigned int i_dst = (unsigned int)ceil (
-                    ( r_cell - __geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-                    / sim_domain->geometry.cell_amount[0] );
-
-                  unsigned int j_dst = (unsigned int)ceil (
-                    ( z_cell - __geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-                    / sim_domain->geometry.cell_amount[1] );
+                  // domains could be different by size, if grid is not
+                  // divided by domains amount completely
+                  unsigned int i_dst = (unsigned int)(
+                    ( ( r_cell - __geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+                      * __domains.x_size - 1 ) / __geometry->cell_amount[0] );
+
+                  unsigned int j_dst = (unsigned int)(
+                    ( ( z_cell - __geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+                      * __domains.y_size - 1 ) / __geometry->cell_amount[1] );
 
                   if (r_cell < 0 || z_cell < 0)
                   {
-- 
2.43.0


From e777d2beacedb81b4662c6ffd509a3f2cec4aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 05/86] fix: round, but not truncate the amount of cells of the
 global geometry

---
 include/geometry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..31f4bdf 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -18,6 +18,7 @@
 #ifndef _GEOMETRY_HPP_
 #define _GEOMETRY_HPP_
 
+#include <math.h>
 #include <vector>
 
 #include "defines.hpp"
@@ -68,7 +69,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back((size_t)round(global_size[i] / cell_size[i]));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From f1322cce1d882c10347f394b31018492c307c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 06/86] fix: use volume of the proper cell, when weighting
 fields and densities

CELL_VOLUME did not parenthesize its argument, so for i + n it returned
the volume, which does not belong to any of cells
---
 include/geometry.hpp      |  4 ++--
 include/maxwellSolver.hpp | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 31f4bdf..1962c2b 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -183,8 +183,8 @@ public:
 };
 
 // some geometry-related macros
-//! \f$ ( \pi \times (dr * (i+0.5))^2 - \pi \times (dr * (i-0.5))^2 ) * dz \f$
-#define CELL_VOLUME(i, dr, dz) constant::PI * (dz) * (dr) * (dr) * (2.0 * i + 1)
+//! \f$ ( \pi \times (dr * (i+1))^2 - \pi \times (dr * i)^2 ) * dz \f$
+#define CELL_VOLUME(i, dr, dz) constant::PI * (dz) * (dr) * (dr) * (2.0 * (i) + 1)
 
 //! volume of the cylindrical ring (internal cylinder on r1 is cut out)
 #define CYL_RNG_VOL(z, r1, r2) constant::PI * (z) * ((r2) * (r2) - (r1) * (r1))
diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..ac35463 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -128,8 +128,8 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     dz1 = (k_z + 1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
@@ -158,7 +158,7 @@ public:
     // if (k_z < 0) k_z = 0;
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
 
     r2 = (i_r + 0.5) * dr;
     dz1 = (k_z + 1.5) * dz - longitude;
@@ -188,8 +188,8 @@ public:
     // if (k_z < 0) k_z = 0;
 
     r2 = (i_r+1) * dr;
-    vol_1 = CELL_VOLUME(i_r + 1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r + 3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     dz1 = (k_z+1.5) * dz - longitude;
     dz2 = longitude - (k_z+0.5) * dz;
 
@@ -239,8 +239,8 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
+    vol_1 = CELL_VOLUME(i_r, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     dz1 = (k_z+1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
@@ -264,7 +264,7 @@ public:
     k_z_shift = k_z - geometry->cell_dims[1];
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z + 1.5) * dz - longitude;
@@ -294,7 +294,7 @@ public:
     // if (k_z < 0) k_z = 0;
 
     vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
+    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z+1)*dz-longitude;
-- 
2.43.0


From 507d84b64a3b33152efa037b967ddcbca856119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 07/86] fix: do not add azimuthal electric field to
 longitudinal one

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index ac35463..9b883d0 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From 68edf9f2c186da088fca1b556d039157b8c97283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 08/86] fix: initialize relativistic switch of adaptive Boris
 pusher

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From ee573510cd65ac26466b56872080c119ed8d2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 09/86] fix: correct rotation and units of gamma factor in
 Higuera-Cary pusher

---
 src/pusher/pusherHC.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..c00c49f 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,8 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 )
+                                                 / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
@@ -91,10 +92,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From 24b31df276eaed61b46713ef31c49de81278e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 10/86] fix: correct units of gamma factor in Vay pusher

---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From 282e4c7ae0d438f83abba7334e21ae1609641e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 11/86] fix: get longitudinal cell number of injected particle
 from its longitude

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From cf3c5feb8783a292e9f0d70b1582dfafa215e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 12/86] fix: count injected bunches in every domain, not only
 in the first one

---
 src/beamP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..6d42225 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -146,11 +146,11 @@ void BeamP::inject()
     }
 
     // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
+    if (time->current > bunch_finish_time)
     {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+      if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+          && geometry->cell_dims[0] == 0)
+        LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
       ++current_bunch_number;
     }
   }
-- 
2.43.0


From f0ce3f79da83a8f785ade524e905ffe58c273ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 13/86] fix: apply Lorentz factor to momentum of relativistic
 particles

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..c29d21d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -729,7 +729,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -761,7 +761,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From 28c764b9cadb7bc30e417ec06858ee72c44e3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 14/86] fix: calculate absolute momentum before using it for
 temperature

---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index c29d21d..476cf12 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From 332fcb1c97c086a36fa64574660ad9e9af7b1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 15/86] fix: rotate velocity to rz pane in the same direction
 as position

Free particle should fly straight, keeping its angular momentum. So, velocity
should be projected to the new radial and azimuthal directions before
reflection from the walls, even if the particle went over the axis
---
 include/specieP.hpp | 4 +++-
 src/SMB.cpp         | 6 +++---
 src/specieP.cpp     | 9 ++++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/specieP.hpp b/include/specieP.hpp
index 8fe1ec0..28c05b8 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -63,7 +63,7 @@ using namespace std;
 
 // service variables to correct cartesian to cylindrical geometry
 #define P_SIN(var) var.sin
-#define P_COS(var) algo::common::sq_rt(1 - var.sin * var.sin)
+#define P_COS(var) var.cos
 
 #define P_CELL_R(var) var.cell_r
 #define P_CELL_Z(var) var.cell_z
@@ -88,6 +88,7 @@ typedef struct Particle_struct
 
   double weight;
   double sin;
+  double cos;
 
   size_t cell_r;
   size_t cell_z;
@@ -111,6 +112,7 @@ typedef struct Particle_struct
     vel_z = 0;
     weight = 0;
     sin = 0;
+    cos = 1;
     cell_r = 0;
     cell_z = 0;
     mark = 0;
diff --git a/src/SMB.cpp b/src/SMB.cpp
index 4d74b8b..b09611f 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -363,7 +363,7 @@ void SMB::particles_runaway_collector ()
   unsigned int prtls_minus = queue_particles_minus.size();
 
   // create MPI data structure
-  int blocklengths[3] = {11,3,1};
+  int blocklengths[3] = {12,3,1};
   MPI_Datatype types[3] = {MPI_DOUBLE, MPI_SIZE_T, MPI_UNSIGNED_SHORT};
   MPI_Datatype mpi_prtl_type;
   MPI_Aint offsets[3];
@@ -1318,10 +1318,10 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
       sim_domain->particles_back_velocity_to_rz();
 
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
diff --git a/src/specieP.cpp b/src/specieP.cpp
index 476cf12..4fb7424 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -615,7 +615,10 @@ void SpecieP::back_position_to_rz()
     double pos_r = P_POS_R((**p));
     double pos_phi = P_POS_PHI((**p));
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
-    P_SIN((**p)) = pos_phi / r;
+
+    // particle, located exactly on the axis, does not require rotation
+    P_SIN((**p)) = r > 0 ? pos_phi / r : 0;
+    P_COS((**p)) = r > 0 ? pos_r / r : 1; // negative, if particle went over the axis
     P_POS_R((**p)) = r;
     P_POS_PHI((**p)) = 0;
   }
@@ -632,8 +635,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From b18d3aad089e9d32cadb9c6415e77000894282dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 16/86] fix: reflect particles, located exactly at zero
 position

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4fb7424..d9659b2 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 438323bc67fc253689ed82c47244ceb7ca61d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 17/86] fix: protect particles, jumping between domains, from
 the race condition

---
 src/SMB.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index b09611f..924b56f 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -257,6 +257,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -267,12 +268,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+#pragma omp critical (runaway_minus)
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+#pragma omp critical (runaway_plus)
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -294,6 +297,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -315,6 +319,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -322,8 +327,6 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
-                    ++j_c;
-
                     Domain *dst_domain = __domains(i_dst, j_dst);
                     for (auto pd = dst_domain->species_p.begin(); pd != dst_domain->species_p.end(); ++pd)
                       if ((**pd).id == (**ps).id)
@@ -334,7 +337,13 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
-                        (**pd).particles.push_back(o);
+
+                        // destination domain is common for several source domains
+#pragma omp critical (runaway_jump)
+                        {
+                          (**pd).particles.push_back(o);
+                          ++j_c;
+                        }
                       }
 
                     res = true;
-- 
2.43.0


From 266ebe90808247b825b53bf1748c0e451a154be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 18/86] fix: do not require alignment of the stack array, when
 calculate squared root with AVX

---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 9698ce1..e3b188c 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -35,7 +35,7 @@ namespace algo::common
     double d[4];
     __m256d c = _mm256_sqrt_pd(_mm256_set_pd(x, 0, 0, 0));
 
-    _mm256_store_pd(d, c);
+    _mm256_storeu_pd(d, c); // stack array is not guaranteed to be aligned
 
     return d[3];
   }
-- 
2.43.0


From 26231f5d5ae3fb73bda1f8887b6e86bbb1077332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 19/86] fix: do not hang, when amount of cells is not
 represented by floating point exactly

---
 src/algo/common.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index e3b188c..7c47b37 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -210,8 +210,10 @@ namespace algo::common
   unsigned int nearest_divide (unsigned int number, double what)
   {
     unsigned int res = number;
-    while ( res / what != floor(res / what) )
-      ++res;
+    unsigned int divider = (unsigned int)round(what); // get rid of floating point noise
+
+    if (divider > 1 && res % divider != 0)
+      res += divider - res % divider;
 
     return res;
   }
-- 
2.43.0


From 685878429dd079d8a3e5e128c42b677a76452fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 20/86] fix: do not construct configuration file name from null
 pointer

---
 src/PiCoPiC.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..2b1f3da 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -116,7 +116,9 @@ string parse_argv_get_config(int argc, char **argv)
 
   if (algo::common::cmd_option_exists(argv, argv+argc, "-f"))
   {
-    filename = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    char *option = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    if (option) // otherwise there is no value after ``-f''
+      filename = option;
   }
   else
   {
-- 
2.43.0


From e93e92ced9965ec045beeeead992cbbde9e83ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 21/86] fix: missing parenthesis, when include Perez collisions

---
 include/domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
-- 
2.43.0


From a5e73e5447831104dc4f41e0839f350a90af00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 22/86] fix: guarantee unique IDs of particle species and beams

---
 include/cfg.hpp |  1 +
 src/cfg.cpp     | 24 +++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index 3e8ba14..39028a6 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -218,6 +218,7 @@ public:
 private:
   picojson::value json_data;
 
+  bool is_id_busy(unsigned short _id);
   void init_particles();
   void init_probes();
   void init_beam();
diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..6ba61ab 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -159,6 +159,20 @@ Cfg::~Cfg()
 {
 }
 
+bool Cfg::is_id_busy(unsigned short _id)
+{
+  //! check, if the ID is already used by other particles specie or beam
+  for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+    if (sp->id == _id)
+      return true;
+
+  for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+    if (bm->id == _id)
+      return true;
+
+  return false;
+}
+
 void Cfg::init_particles()
 {
   //! initialize particles charge, mass, number,
@@ -182,6 +196,10 @@ void Cfg::init_particles()
 
     unsigned short current_specie_id = algo::common::hash_from_string(specie_name, SPECIE_HASH_SALT);
 
+    // different names can have the same hash. IDs should be unique
+    while (is_id_busy(current_specie_id))
+      ++current_specie_id;
+
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
     p_s.id = current_specie_id;
@@ -347,7 +365,11 @@ void Cfg::init_beam()
                        << "'' already exists. Beam names should be unique";
 
       // ! calculate current beam ID from its name:
-      unsigned int current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
+      unsigned short current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
+
+      // different names can have the same hash. IDs should be unique
+      while (is_id_busy(current_beam_id))
+        ++current_beam_id;
 
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
-- 
2.43.0


From 806ca4329e167626b29b3478d7b517b32d2b5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 23/86] fix: reject configuration with zero domains amount, or
 with domains, smaller than overlay area

---
 include/cfg.hpp | 1 +
 src/cfg.cpp     | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index 39028a6..f294345 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -39,6 +39,7 @@
 #define BEAM_HASH_SALT 18132
 
 #define MIN_DOMAIN_GRID_AMOUNT 64
+#define MIN_DOMAIN_CELL_AMOUNT 4 // twice of overlay area size
 
 struct probe
   //! There are several types of probes: vector and scalar and particle specie
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 6ba61ab..73f2ea1 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -606,6 +606,15 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  // domains should be larger, than overlay areas of their neighbours
+  if (geometry->domains_amount[0] == 0 || geometry->domains_amount[1] == 0
+      || geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_CELL_AMOUNT
+      || geometry->cell_amount[1] / geometry->domains_amount[1] < MIN_DOMAIN_CELL_AMOUNT)
+    {
+      LOG_S(FATAL) << "Incorrect amount of domains. Every domain should have ``"
+                   << MIN_DOMAIN_CELL_AMOUNT << "'' cells or more by r and z";
+    }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From bc8f9168b51dea73e833826179be69b853b095ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 24/86] fix: read column, row and dot probes, reject empty ones
 and ones out of the grid

---
 src/cfg.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 73f2ea1..289b0d0 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -275,6 +275,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.resize(4);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -288,6 +289,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -301,6 +303,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -318,19 +321,32 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
-    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])
+    if (o["schedule"].get<double>() < 1)
+      LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape << " schedule: "
+                   << o["schedule"].get<double>() << ". Must be 1 or more";
+
+    // ``rec'' probe does not include its end, while other ones point to the cell directly
+    size_t r_limit = geometry->cell_amount[0];
+    size_t z_limit = geometry->cell_amount[1];
+    if (p_p.shape != 0)
+    {
+      --r_limit;
+      --z_limit;
+    }
+
+    if ((p_p.shape == 0 && (p_p.dims[0] >= p_p.dims[2] || p_p.dims[1] >= p_p.dims[3])))
     {
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape << " shape: ["
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    else if (p_p.dims[2] > r_limit)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] > z_limit)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-- 
2.43.0


From 702c74bafb3682b9df5141cf59e7632592ca91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 25/86] fix: write probe only from domains, it really
 intersects with

---
 src/outController.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..219a846 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,23 +89,23 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3]
+               && prb_size[3] < domain_size[3]
             )
           || ( prb->shape == 2                    // condition for row
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
             )
           || ( prb->shape == 3                      // condition for dot
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3] )
+               && prb_size[3] < domain_size[3] )
           )
         {
           // calculate effective probe size
-- 
2.43.0


From 2f840d878767309fc9a553e2598bf94edad626cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 26/86] fix: allow configuration without probes

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 219a846..6980fd2 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -35,7 +35,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
 // write metadata
 #ifdef ENABLE_HDF5
   hdf5_file = _file;
-  OutEngineHDF5 engine (hdf5_file, _probes[0].path, {0,0}, {0,0}, true, false);
+  OutEngineHDF5 engine (hdf5_file, "/", {0,0}, {0,0}, true, false); // path is not used for metadata
 #endif // end of ENABLE_HDF5
 
   engine.write_metadata( _metadata );
-- 
2.43.0


From 1524b4cb893a4e9ac57b58ca03f4a9e61da04813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 27/86] fix: do not write probe with unknown component from
 uninitialized pointer

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 6980fd2..3eb89be 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
-            LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+            LOG_S(FATAL) << "Unknown probe component ``" << prb->component << "''";
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From 01109d2a64cf2a348ec32cc272b3fd4bb1a4a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 28/86] fix: allow several probes of the same component and
 shape

---
 src/outEngine/outEngineHDF5.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..5999b7c 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -118,14 +118,11 @@ void OutEngineHDF5::write_dot(size_t _num, double data)
 
 void OutEngineHDF5::create_dataset()
 {
-  string group_name = path.substr(0, path.find_last_of("\\/"));
+  // group could be already created by other probe with the same component and shape
+  create_path();
 
   try
   {
-    LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
-
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
     for (unsigned int i=0; i < size.size(); ++i)
-- 
2.43.0


From 73e84027aba4729ba523e720000a937cff9f192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 29/86] fix: do not skip or duplicate frames because of
 floating point errors of the current time

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index 3eb89be..0e5d6b2 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From d95bd7c6e3fc21f04dcab924a675fd00a2b8482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 30/86] fix: do not truncate large schedule of probe

---
 include/outWriter.hpp | 6 +++---
 src/outWriter.cpp     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..52179a1 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -37,7 +37,7 @@ private:
 #endif // end of ENABLE_HDF5
 
   TimeSim *time;
-  unsigned short schedule;
+  unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
   std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
@@ -47,13 +47,13 @@ public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
 
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 78b0d9a..b81a2dc 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -21,7 +21,7 @@ using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
 {
@@ -35,7 +35,7 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
                 _append, _compress, _time, _values)
-- 
2.43.0


From 920778e68b300b113a3ce0f7050e6c646660e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 31/86] fix: overlay density in corners of diagonally adjacent
 domains

---
 src/outController.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 0e5d6b2..8ac02a5 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -483,11 +483,20 @@ void OutController::init_datasets()
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
           }
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
+          // corners
+          if (prb->component.compare("density") == 0
+              && i < geometry->domains_amount[0] - 1)
+          {
+            if (j < geometry->domains_amount[1] - 1)
+              for (auto ps : smb->domains(i + 1, j + 1)->species_p)
+                if (prb->specie.compare(ps->name) == 0)
+                  speciep->density_map.overlay_xy(ps->density_map);
+
+            if (j > 0)
+              for (auto ps : smb->domains(i + 1, j - 1)->species_p)
+                if (prb->specie.compare(ps->name) == 0)
+                  speciep->density_map.overlay_yx(ps->density_map);
+          }
         }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
-- 
2.43.0


From a041bc98408d398de8892200041f29bbaec6fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 32/86] fix: do not reset density, prepared for dump, when
 calculate other weighted values

---
 include/specieP.hpp |  2 ++
 src/specieP.cpp     | 32 +++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/specieP.hpp b/include/specieP.hpp
index 28c05b8..88116bb 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -174,6 +174,7 @@ public:
   Grid<double> energy_map;
 
   // weighted maps (for internal usage)
+  Grid<double> density_map_w;
   Grid<double> momentum_abs_map_w;
   Grid3D<double> momentum_map_w;
 
@@ -267,6 +268,7 @@ protected:
   void eigen_velocity_distribution ();
   void eigen_directed_velocity_distribution (unsigned int dir); // 0,1,2 are for r, phi, z
 
+  void calc_density_w ();
   void calc_momentum_abs_w ();
   void calc_momentum_w ();
 };
diff --git a/src/specieP.cpp b/src/specieP.cpp
index d9659b2..9ac0cee 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -64,6 +64,7 @@ SpecieP::SpecieP (unsigned int p_id,
   temperature_map = Grid<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   energy_map = Grid<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
 
+  density_map_w = Grid<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   momentum_abs_map_w = Grid<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   momentum_map_w = Grid3D<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   momentum_map = Grid3D<double> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
@@ -678,6 +679,19 @@ void SpecieP::calc_density()
                                  P_WEIGHT((**i)));
 }
 
+void SpecieP::calc_density_w()
+{ // the same, as density_map, but for internal usage,
+  // because density map could be scheduled for dump
+  density_map_w = 0;
+  density_map_w.overlay_set(0);
+
+  for (auto i = particles.begin(); i != particles.end(); i++)
+    weight_cylindrical<double> ( geometry, &density_map_w,
+                                 P_POS_R((**i)),
+                                 P_POS_Z((**i)),
+                                 P_WEIGHT((**i)));
+}
+
 void SpecieP::calc_temperature()
 {
   // clear grid values
@@ -685,14 +699,14 @@ void SpecieP::calc_temperature()
   temperature_map.overlay_set(0);
 
   // calculate density initially
-  calc_density();
+  calc_density_w();
   calc_momentum_w();
   calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
-      double density_local = density_map(r, z);
+      double density_local = density_map_w(r, z);
 
       if (density_local == 0)
         temperature_map.set(r, z, 0);
@@ -797,13 +811,13 @@ void SpecieP::calc_energy()
   energy_map.overlay_set(0);
 
   // calculate density initially
-  calc_density();
+  calc_density_w();
   calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
-      double density_local = density_map(r, z);
+      double density_local = density_map_w(r, z);
 
       if (density_local == 0)
         energy_map.set(r, z, 0);
@@ -826,7 +840,7 @@ void SpecieP::calc_energy()
 
 void SpecieP::calc_momentum ()
 {
-  calc_density();
+  calc_density_w();
   calc_momentum_w(); // calculates absolute momentum values also
 
   momentum_map = 0;
@@ -834,10 +848,10 @@ void SpecieP::calc_momentum ()
 
   for (unsigned int i = 0; i < geometry->cell_amount[0]; ++i)
     for (unsigned int j = 0; j < geometry->cell_amount[1]; ++j)
-      if (density_map(i, j) != 0)
+      if (density_map_w(i, j) != 0)
       {
-        momentum_map[0].set(i, j, momentum_map_w(0, i, j) / density_map(i, j));
-        momentum_map[1].set(i, j, momentum_map_w(1, i, j) / density_map(i, j));
-        momentum_map[2].set(i, j, momentum_map_w(2, i, j) / density_map(i, j));
+        momentum_map[0].set(i, j, momentum_map_w(0, i, j) / density_map_w(i, j));
+        momentum_map[1].set(i, j, momentum_map_w(1, i, j) / density_map_w(i, j));
+        momentum_map[2].set(i, j, momentum_map_w(2, i, j) / density_map_w(i, j));
       }
 }
-- 
2.43.0


From 6742c4c0690053438ddf36af538fd587841eb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:24 +0000
Subject: [PATCH 33/86] fix: close data file at the end of the step, when
 paused, and pass reopened one to the writers

---
 include/outController.hpp |  4 ++++
 include/outWriter.hpp     |  6 ++++++
 src/PiCoPiC.cpp           | 40 +++++++++++++++++----------------------
 src/outController.cpp     | 13 +++++++++++++
 4 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..7f05767 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -62,6 +62,10 @@ public:
 #endif
   ~OutController() {};
 
+#ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // switch to other (reopened) data file
+#endif // ENABLE_HDF5
+
   void operator()(); // launch writers on all domains of all SMBs
 
 private:
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 52179a1..dd001e1 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -61,6 +61,12 @@ public:
 
 #ifdef ENABLE_HDF5
   HighFive::File *hdf5_file;
+
+  void set_file (HighFive::File *_file)
+  {
+    hdf5_file = _file;
+    engine.data_file = _file;
+  };
 #endif
 };
 
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 2b1f3da..f13a428 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -53,7 +53,7 @@ string hdf5_filepath;
 
 // using namespace HighFive;
 
-HighFive::File *file;
+HighFive::File *file = nullptr;
 #endif // ENABLE_HDF5
 
 void signal_handler( int signum )
@@ -61,12 +61,9 @@ void signal_handler( int signum )
 #ifdef ENABLE_HDF5
   if (signum == SIGUSR1 && !lock_)
   {
-    LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
+    // data file can be in use at the moment. It will be
+    // unlocked, when current calculation step is finished
     lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
   }
   else if (signum == SIGUSR2 && lock_) // reopen
   {
@@ -90,6 +87,7 @@ void signal_handler( int signum )
   {
 #ifdef ENABLE_HDF5
     delete file;
+    file = nullptr; // to not close it once again, if exit is interrupted
 #endif // ENABLE_HDF5
 
     const char * sigstr = strsignal(signum);
@@ -351,6 +349,16 @@ int main(int argc, char **argv)
 //// check if the simulation pause/unpause requested
       // (signals USR1 for pause and USR2 for unpause
 #ifdef ENABLE_HDF5
+      if (lock_)
+      {
+        LOG_S(INFO) << "Pause calculation";
+        LOG_S(INFO) << "Unlocking data file...";
+        delete file;
+        file = nullptr;
+        LOG_S(INFO) << "Unlocked";
+        cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+      }
+
       while (lock_)
       {
         if (recreate_writers_)
@@ -359,7 +367,7 @@ int main(int argc, char **argv)
           try
           {
             LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
+            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
             LOG_S(INFO) << "Locked";
           }
           catch (const HighFive::Exception&)
@@ -367,23 +375,9 @@ int main(int argc, char **argv)
             LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
           }
 
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
-
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
+          // pass reopened file to the writers
+          out_controller.set_file(file);
 
-          //   data_writers.push_back(writer);
-          // }
           lock_.store(false, std::memory_order_relaxed);
           recreate_writers_.store(false, std::memory_order_relaxed);
         }
diff --git a/src/outController.cpp b/src/outController.cpp
index 8ac02a5..b407646 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -504,6 +504,19 @@ void OutController::init_datasets()
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::set_file(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+      for (auto w = smb->domains(r, z)->out_writers.begin();
+           w != smb->domains(r, z)->out_writers.end(); ++w)
+        w->set_file(_file);
+}
+#endif // ENABLE_HDF5
+
 void OutController::operator()()
 {
   init_datasets();
-- 
2.43.0


From 78ccda40258758a7dbab65cb92437470a93de5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 34/86] fix: run collisions with the operator, which really
 exists

---
 src/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From 528e45a06721f6c5d4aea8801c204e0660aed070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 35/86] fix: do not skip collisions in the rest of cells in the
 row after the empty one

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..d599eb8 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From aee3220d6a15ae261e42fa3fa3611c13b73fdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 36/86] fix: relative velocity of colliding particles in
 center-of-mass frame

---
 src/collisions/collisionsP12.cpp  | 3 ++-
 src/collisions/collisionsSK98.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..7487257 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -135,7 +135,8 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  // particles move in opposite directions in center-of-mass frame
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..b230fc8 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -133,7 +133,8 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  // particles move in opposite directions in center-of-mass frame
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From 85fbd22febee795fbd9903bd62299664e397383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 37/86] fix: conserve momentum and energy of the pair in
 Takizuka-Abe collisions

---
 src/collisions/collisionsTA77S.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index d599eb8..a28fac1 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From a2d25472c09f0b5898d099b7f590ab5554ab3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 38/86] fix: do not produce NaN velocities, when center of mass
 is immobile or particles collide along z axis

---
 src/collisions/collisionsP12.cpp  | 34 ++++++++++++++++++++-----------
 src/collisions/collisionsSK98.cpp | 23 +++++++++++++--------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 7487257..99e9e18 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -110,6 +110,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // (gamma - 1) / beta^2, which should not turn into 0 / 0 for immobile center of mass
+  double gamma_cm_koef = gamma_cm * gamma_cm / (gamma_cm + 1);
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -118,7 +121,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm_koef;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -228,6 +231,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // approximations above could be slightly out of range
+  cos_xi_cm = max(-1., min(1., cos_xi_cm));
+
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
@@ -239,11 +245,15 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+  // any direction is perpendicular, if particles move along z axis
+  double e_0 = p_cm_prp > 0 ? p_a_cm[0] / p_cm_prp : 1;
+  double e_1 = p_cm_prp > 0 ? p_a_cm[1] / p_cm_prp : 0;
+
+  p_a_prime_cm[0] = e_0 * p_a_cm[2] * sin_xi_cm * cos_phi_cm
+    - e_1 * p_a_cm_abs * sin_xi_cm * sin_phi_cm
     + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+  p_a_prime_cm[1] = e_1 * p_a_cm[2] * sin_xi_cm * cos_phi_cm
+    + e_0 * p_a_cm_abs * sin_xi_cm * sin_phi_cm
     + p_a_cm[1] * cos_xi_cm;
   p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
 
@@ -256,7 +266,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm_koef;
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -273,7 +283,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm_koef;
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
@@ -537,11 +547,11 @@ void CollisionsP12::collide ()
     L_mean /= ncol;
     debye_mean /= ncol;
 
-    double d_el;
-    double d_ion;
-    double t_el;
-    double t_ion;
-    double g_counter;
+    double d_el = 0;
+    double d_ion = 0;
+    double t_el = 0;
+    double t_ion = 0;
+    double g_counter = 0;
     for (int i = 0; i < geometry->cell_amount[0]; ++i)
       for (int j = 0; j < geometry->cell_amount[1]; ++j)
 	{
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index b230fc8..11e08f6 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -103,6 +103,9 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // (gamma - 1) / beta^2, which should not turn into 0 / 0 for immobile center of mass
+  double gamma_cm_koef = gamma_cm * gamma_cm / (gamma_cm + 1);
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -111,14 +114,14 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm_koef;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
   p_b_cm[1] = -p_a_cm[1];
   p_b_cm[2] = -p_a_cm[2];
   // p_b_cm = p_b;
-  // p_b_cm += beta_cm * beta_cm.dot(p_b) * ( gamma_cm - 1 ) / beta_cm.length2();
+  // p_b_cm += beta_cm * beta_cm.dot(p_b) * gamma_cm_koef;
   // p_b_cm -= beta_cm * gamma_cm * p0_b;
 
   // get gamma --- center-of-mass frame
@@ -184,11 +187,15 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+  // any direction is perpendicular, if particles move along z axis
+  double e_0 = p_cm_prp > 0 ? p_cm[0] / p_cm_prp : 1;
+  double e_1 = p_cm_prp > 0 ? p_cm[1] / p_cm_prp : 0;
+
+  d_p[0] = e_0 * p_cm[2] * sin_theta_cm * cos_phi
+    - e_1 * p_cm_abs * sin_theta_cm * sin_phi
     - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+  d_p[1] = e_1 * p_cm[2] * sin_theta_cm * cos_phi
+    + e_0 * p_cm_abs * sin_theta_cm * sin_phi
     - p_cm[1] * ( 1 - cos_theta_cm);
   d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
 
@@ -199,11 +206,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm_koef;
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm_koef;
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0


From 18ccdd510eba542104656f449e857480a35fa459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 39/86] fix: reject collisions without electrons or ions

---
 include/collisions.hpp | 4 ++--
 src/collisions.cpp     | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/collisions.hpp b/include/collisions.hpp
index 38a0a1e..a1e8e41 100644
--- a/include/collisions.hpp
+++ b/include/collisions.hpp
@@ -50,8 +50,8 @@ public:
 
 protected:
   vector <SpecieP *> species_p;
-  SpecieP* specie_el;
-  SpecieP* specie_ion;
+  SpecieP* specie_el = nullptr;
+  SpecieP* specie_ion = nullptr;
   Grid < vector< Particle * > > map_el2cell;
   Grid < vector< Particle * > > map_ion2cell;
 
diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..4d16a5f 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -46,6 +46,10 @@ Collisions::Collisions (Geometry* _geometry, TimeSim *_time, vector <SpecieP *>
       charge_ion = (**ps).charge;
     }
   }
+
+  if (specie_el == nullptr || specie_ion == nullptr)
+    LOG_S(FATAL) << "Both of ``electrons'' and ``ions'' species are required to collide";
+
   map_el2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   map_ion2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
 
-- 
2.43.0


From 841e214660615b80e297a418b7b1a1ec826962fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:50 +0000
Subject: [PATCH 40/86] fix: do not share random numbers generator between
 threads

---
 src/math/rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..3c310f0 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,8 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // generator has a state, so every thread should have its own one
+  thread_local std::mt19937 gen(std::random_device{}());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0


From 9cd2fdec010e615ad4c41b5061d6ee4cecbae02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 41/86] fix: do not erase azimuthal current of the overlay area

---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..4e4d01d 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 1fc93cbb8c27cca176c02f9d4a3164d06b5e62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 42/86] fix: current of particle, that crosses the cell edge
 strictly along the radius

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4e4d01d..c487f44 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -668,7 +668,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -709,7 +709,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From c2d90cfbdb307afd176d9ee17ee22ea189e2aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 43/86] fix: check the longitudinal shift of particle, when
 weight its current

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index c487f44..61f73cc 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -194,7 +194,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From db9bae0908929a9c7341a2e586bea32e35434d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 44/86] fix: do not erase radial current of other particles,
 when particle moves strictly along the axis

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 61f73cc..db135c9 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -541,11 +541,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From db764ed33fb983942efc91ae1ee36a4af7a9099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 45/86] fix: do not lose current of particle, that crosses
 exactly the node of the grid

---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index db135c9..cc9d10a 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -299,7 +299,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -323,7 +323,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -352,7 +352,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -378,7 +378,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From a23dbf6745ce0d37a50974ebcdfdb5b353ec450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 46/86] fix: do not lose current of particle, that moves almost
 along the axis or the radius

---
 src/current/currentVB.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index cc9d10a..70efe24 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -43,7 +43,11 @@ void CurrentVB::simple_current_distribution(double radius_new,
   double some_shit_density;
 
   if ((abs(delta_r) < MNZL) || (abs(delta_z) < MNZL)) // MNZL see constant.h
+  {
+    strict_motion_distribution(radius_new, longitude_new,
+                               radius_old, longitude_old, p_charge);
     return;
+  }
   // if i cell is not equal 0
   if (i_n>=1)
   {
@@ -57,7 +61,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
     wj = some_shit_density
       * (dr * delta_z - k * delta_z * delta_z / 2. - delta_z * b + dr * dr / k
-         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log((k * delta_z + b) / b));
+         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log1p(delta_r / radius_old));
     // set new weighting current value
     // el_current->inc_j_z(i_n, k_n, wj);
     current[2].inc(i_n_shift, k_n_shift, wj);
@@ -67,7 +71,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
     // calculate current in [i+1,k] cell //
     wj = some_shit_density
       * (k * delta_z * delta_z / 2. + delta_z * b + delta_z * dr + dr * dr / k *
-         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log((k * delta_z + b) / b));
+         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log1p(delta_r / radius_old));
     // set new weighting current value
     // el_current->inc_j_z(i_n+1, k_n, wj);
     current[2].inc(i_n_shift + 1, k_n_shift, wj);
@@ -90,7 +94,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r)) +
          (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         * log1p(delta_r / radius_old));
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
@@ -102,7 +106,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          + delta_r * (b + k * r1) * (4 * r0 * r0 - dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
          - (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         * log1p(delta_r / radius_old));
     // el_current->inc_j_r(i_n, k_n+1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
@@ -152,7 +156,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
          + (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         * log1p(delta_r / radius_old));
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
@@ -166,7 +170,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          + delta_r * (b + k * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
          - (k * (r0 * r0 / 2.-dr * dr / 8.)) *
-         log((radius_old + delta_r) / radius_old));
+         log1p(delta_r / radius_old));
     // el_current->inc_j_r(i_n, k_n + 1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
-- 
2.43.0


From 6bf5b4c0a73484639e77dea94e56863f79234623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:48 +0000
Subject: [PATCH 47/86] fix: use dimensionless weights in zigzag current
 distribution

---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..fb6f940 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / (2 * dr) - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / (2 * dr) - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / (2 * dz) - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / (2 * dz) - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From 8d4b727fb75615b881d5a7e4e1649bc070f30688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:48 +0000
Subject: [PATCH 48/86] fix: conserve azimuthal current in zigzag current
 distribution

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index fb6f940..993a2ac 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From bff68faa1986d52f70fbb91c762e00d904dea136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 49/86] fix: energies of the coldest particles in
 Maxwell-Juettner distribution

---
 include/constant.hpp         | 2 +-
 src/math/maxwellJuettner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/constant.hpp b/include/constant.hpp
index 95b01eb..c1d8dfb 100644
--- a/include/constant.hpp
+++ b/include/constant.hpp
@@ -31,7 +31,7 @@ namespace constant
   const double ONE_OVER_3 = 1. / 3.;
   const double TWO_OVER_3 = 2. / 3.;
   const double FOUR_OVER_3 = 4. / 3.;
-  const double THREE_OVER_4 = 4. / 3.;
+  const double THREE_OVER_4 = 3. / 4.;
   // PI constant
   const double PI = 3.1415926535897932;
   // Vacuum permittivity (electric constant), F*m(e-1)
diff --git a/src/math/maxwellJuettner.cpp b/src/math/maxwellJuettner.cpp
index c4c412d..83cfa6f 100644
--- a/src/math/maxwellJuettner.cpp
+++ b/src/math/maxwellJuettner.cpp
@@ -345,7 +345,7 @@ namespace math::maxwell_juettner
         // Calculate the inverse of F
         lnlnU = log(-log(U));
         if( lnlnU>2. )
-          invF = constant::THREE_OVER_4 * sqrt(constant::PI) * pow(U, constant::TWO_OVER_3);
+          invF = pow(constant::THREE_OVER_4 * sqrt(constant::PI) * U, constant::TWO_OVER_3);
         else if ( lnlnU<-19. )
           invF = 1.;
         else {
-- 
2.43.0


From e5eab75a2add3b47004d68da29a4ed6fa5181581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 50/86] fix: weight particle, located exactly at the edge of
 the first cell, with volume of its own cell

---
 include/algo/weighter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index 5891039..2103bc8 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -46,7 +46,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
   T v_1 = CELL_VOLUME(r_i, dr, dz);
   T v_2 = CELL_VOLUME(r_i + 1, dr, dz);
 
-  if (pos_r > dr)
+  if (pos_r >= dr)
   {
     r1 =  pos_r - 0.5 * dr;
     r2 = (r_i + 0.5) * dr;
-- 
2.43.0


From 1439573c17787d3dec811d8ab441f6bd934e5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:59 +0000
Subject: [PATCH 51/86] fix: inject exact amount of beam macroparticles, not
 rounded up at every step

---
 include/beamP.hpp | 1 +
 src/beamP.cpp     | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/beamP.hpp b/include/beamP.hpp
index 9d967a7..9a2cd7a 100644
--- a/include/beamP.hpp
+++ b/include/beamP.hpp
@@ -38,6 +38,7 @@ public:
   double bunch_length;
   double bunch_macro_amount;
   double macro_per_step_to_inject;
+  double macro_to_inject; // amount of macroparticles, scheduled, but not injected yet
   double domain_radius;
 
 public:
diff --git a/src/beamP.cpp b/src/beamP.cpp
index 6d42225..8e44e08 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -66,6 +66,7 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
   bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
 
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
+  macro_to_inject = 0;
 }
 
 void BeamP::inject()
@@ -97,7 +98,11 @@ void BeamP::inject()
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-      for (unsigned int i = 0; i < macro_per_step_to_inject; ++i)
+      // amount of macroparticles per step is not integer,
+      // so, carry the fractional part to the next step
+      macro_to_inject += macro_per_step_to_inject;
+
+      for (; macro_to_inject >= 1; --macro_to_inject)
       {
         Particle *v = new Particle();
         P_SPECIE_ID((*v)) = id;
-- 
2.43.0


From d06dcef38be57b125e801ef2cb7339ed16e9163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 52/86] fix: bound absorbing layer at the left wall by the cell
 number, independently on domains amount

---
 src/maxwellSolver/maxwellSolverYee.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..73e9a9e 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -89,7 +89,7 @@ void MaxwellSolverYee::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (k + geometry->cell_dims[1] < geometry->pml_size[1])
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
-- 
2.43.0


From e9b3ad521fec3e4608cc59edf55961243765d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:39 +0000
Subject: [PATCH 53/86] fix: correct velocities of the cell, where particles of
 the specie have no thermal motion

---
 src/collisions/collisionsTA77S.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index a28fac1..bbcbb88 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -512,13 +512,12 @@ void CollisionsTA77S::correct_velocities()
           );
 
       // correct ion velocity
-      if (isnormal(alpha_ion)) // FIXME: sometimes E_tot_ion = mass_tot_ion(i, j) * V_0_sq_ion / 2
+      // there is no thermal motion, if E_tot_ion = mass_tot_ion(i, j) * V_0_sq_ion / 2
+      if (!isnormal(alpha_ion)) alpha_ion = 0;
       {
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
-        // and zeros
         if (alpha_ion < 0) alpha_ion = -alpha_ion;
-        if (alpha_ion == 0) alpha_ion = 1;
         alpha_ion = algo::common::sq_rt(alpha_ion);
 
         for (unsigned int k = 0; k < vec_size_ions; ++k)
@@ -538,13 +537,12 @@ void CollisionsTA77S::correct_velocities()
       }
 
       // correct electron velocity
-      if (isnormal(alpha_el)) // FIXME: sometimes E_tot_el = mass_tot_el(i, j) * V_0_sq_el / 2
+      // there is no thermal motion, if E_tot_el = mass_tot_el(i, j) * V_0_sq_el / 2
+      if (!isnormal(alpha_el)) alpha_el = 0;
       {
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
-        // and zeros
         if (alpha_el < 0) alpha_el = -alpha_el;
-        if (alpha_el == 0) alpha_el = 1;
         alpha_el = algo::common::sq_rt(alpha_el);
 
         for (unsigned int k = 0; k < vec_size_electrons; ++k)
-- 
2.43.0


From 4520259b4f499081aa7b863d9f098ff4ea9ad1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:12 +0000
Subject: [PATCH 54/86] fix: reject particles specie and beam with the same
 name

---
 src/cfg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 289b0d0..bf62acf 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -380,6 +380,11 @@ void Cfg::init_beam()
           LOG_S(FATAL) << "Beam name ``" << o["name"].get<string>()
                        << "'' already exists. Beam names should be unique";
 
+      for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+        if (sp->name.compare(beam_name) == 0)
+          LOG_S(FATAL) << "Name ``" << beam_name
+                       << "'' is already used by particles specie. Names should be unique";
+
       // ! calculate current beam ID from its name:
       unsigned short current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
 
-- 
2.43.0


From a8bec37e957ce9fc5caca705c1df1556005738a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:01 +0000
Subject: [PATCH 55/86] fix: do not close the data file twice, when signal is
 received after the end of calculation

---
 src/PiCoPiC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index f13a428..0ccbce2 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -392,6 +392,7 @@ int main(int argc, char **argv)
 
 #ifdef ENABLE_HDF5
     delete file;
+    file = nullptr; // to not close it once again, if signal is received
 #endif
     if (print_progress_table)
       msg::print_final();
-- 
2.43.0


From 2c79e466b18240a4d846c09dd4240874cd1bcd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 56/86] fix: recognize profile of the external electric field

---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..620d979 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 11b0373c9c6d473ed8b9dcbd44a52cd3e0dca06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 57/86] fix: do not reset external electric field, when the
 magnetic one is applied

---
 src/maxwellSolver/externalFields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 620d979..321c947 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From d58da8b7a771ca0362588f41c65bdedd7db60fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 58/86] fix: continue external fields over the borders of
 domains

---
 include/maxwellSolver/externalFields.hpp |  8 +++----
 src/maxwellSolver/externalFields.cpp     | 27 +++++++++++++-----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/maxwellSolver/externalFields.hpp b/include/maxwellSolver/externalFields.hpp
index ec66fb8..154b1bc 100644
--- a/include/maxwellSolver/externalFields.hpp
+++ b/include/maxwellSolver/externalFields.hpp
@@ -29,10 +29,10 @@ public:
 
 private:
   // internal variables to calculation for dielectric walls
-  unsigned int r_begin;
-  unsigned int z_begin;
-  unsigned int r_end;
-  unsigned int z_end;
+  int r_begin;
+  int z_begin;
+  int r_end;
+  int z_end;
 
   unsigned short e_profile_enum; // electric profile enum
   unsigned short m_profile_enum; // magnetic profile enum
diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 321c947..f10e9f4 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -26,26 +26,29 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
                                  std::vector<double> _magn_field_params )
   : MaxwellSolver(_geometry, _time)
 {
+  // field should be continued to the overlay area, where is no wall
+  int overlay = field_e[0].o_s;
+
   // emulate dielectric walls
   if (geometry->walls[0]) // r=0
     r_begin = 1;
   else
-    r_begin = 0;
+    r_begin = -overlay;
 
   if (geometry->walls[1]) // z=0
     z_begin = 1;
   else
-    z_begin = 0;
+    z_begin = -overlay;
 
   if (geometry->walls[2]) // r=r
     r_end = geometry->cell_amount[0] - 1;
   else
-    r_end = geometry->cell_amount[0];
+    r_end = geometry->cell_amount[0] + overlay;
 
   if (geometry->walls[3]) // z=z
     z_end = geometry->cell_amount[1] - 1;
   else
-    z_end = geometry->cell_amount[1];
+    z_end = geometry->cell_amount[1] + overlay;
 
   // set electric and magnetic profiles
   if ( _el_field_profile.compare("none") == 0 )
@@ -240,7 +243,7 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_e[0].set(0, k, 0);
       field_e[2].set(0, k, 0);
@@ -248,12 +251,12 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -285,7 +288,7 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_h[0].set(0, k, 0);
       field_h[2].set(0, k, 0);
@@ -293,12 +296,12 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 288ca0a9ad27eea09931cd02e0dfd9161aeea14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 59/86] fix: read columns, rows and dots by their own paths,
 not by zero column or row

---
 lib/python/picopic/h5_reader.py | 8 ++++----
 lib/python/picopic/reader.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 07e9778..bf9b392 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -99,11 +99,11 @@ class H5Reader (Reader):
     def col(self, p_component, z, number): # longitude and number by time
         '''get column by number.'''
         p_type = 'col'
-        shape = [0, 0, z, 0]
+        shape = [0, 0, 0, z]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
-                             .format(p_component, p_type, shape[2], number))
+                             .format(p_component, p_type, shape[3], number))
             sys.stdout.flush()
         self.__validate_col__(p_component, shape, number)
         col = self.file[path][number]
@@ -116,7 +116,7 @@ class H5Reader (Reader):
     def row(self, p_component, r, number): # latitude and number by time
         '''get row by number'''
         p_type = 'row'
-        shape = [0, 0, 0, r]
+        shape = [0, 0, r, 0]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
@@ -133,7 +133,7 @@ class H5Reader (Reader):
     def dot(self, p_component, r, z, number): # latitude, longitude and number by time
         ''' get dot by number. Find required dataset automatically '''
         p_type = 'dot'
-        shape = [0, 0, z, r]
+        shape = [0, 0, r, z]
         path = self.__path__(p_component, p_type, shape)
         self.__validate_dot__(p_component, shape, number)
         if self.__verbose__:
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 6efe75b..bdc055e 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -56,7 +56,7 @@ class Reader:
         elif p_type == 'row':
             path = "/{}/{}/{}".format(p_component, p_type, shape[2])
         elif p_type == 'dot':
-            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[3], shape[2])
+            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[2], shape[3])
         else:
             raise TypeError("Incorrect data type {}. Must be rec/col/row/dot".format(p_type))
 
-- 
2.43.0


From c1f458df06ef930dadebc07095dc12b84f7be1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 60/86] fix: get amount of frames from the shape of dataset in
 the reader library

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index bf9b392..5ecabb4 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -71,7 +71,7 @@ class H5Reader (Reader):
 
     def __ds_range__(self, p_component, p_type, shape):
         path = self.__path__(p_component, p_type, shape)
-        frange = len(self.file[path].keys())
+        frange = self.file[path].shape[0]
 
         return frange
 
-- 
2.43.0


From 393b1e23441ed4d98177e6624c8fd4fca69eecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 61/86] fix: read ranges of columns, and whole ranges of frames
 of rectangle

---
 lib/python/picopic/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index bdc055e..6225400 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -227,11 +227,11 @@ class Reader:
         csize = self.meta.geometry_grid[0]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'col', [0, 0, 0, z])
-        crange = start_number - end_number
+        crange = end_number - start_number
         cols = np.zeros((crange, csize))
 
         for i in range(start_number, end_number):
-            cols[i-start_number] = self.col(p_component, [0, 0, csize, z], i)
+            cols[i-start_number] = self.col(p_component, z, i)
 
         return(cols)
 
@@ -267,7 +267,7 @@ class Reader:
         '''get column range from rec range'''
         rsize = self.meta.geometry_grid[0]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         crange = end_number - start_number
         recs = np.zeros((crange, rsize))
         for i in range(start_number, end_number):
@@ -281,7 +281,7 @@ class Reader:
         '''get row range from rec range'''
         rsize = self.meta.geometry_grid[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         rrange = end_number - start_number
         recs = np.zeros((rrange, rsize))
         for i in range(start_number, end_number):
@@ -295,7 +295,7 @@ class Reader:
         '''get dot range from rec range'''
         dsize = self.meta.geometry_grid[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         drange = end_number - start_number
         recs = np.zeros((drange))
         for i in range(start_number, end_number):
-- 
2.43.0


From 201c686db700c79cde880c637c7d1ab236f05e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 62/86] fix: read column, row and dot from the rectangle, which
 does not cover whole grid

---
 lib/python/picopic/h5_reader.py | 6 +++---
 lib/python/picopic/reader.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 5ecabb4..d178012 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -149,17 +149,17 @@ class H5Reader (Reader):
 
     def col_rec(self, p_component, z, rec_shape, number):
         '''get column from rectangle'''
-        return self.rec(p_component, rec_shape, number)[:,z]
+        return self.rec(p_component, rec_shape, number)[:,z - rec_shape[1]]
 
 
     def row_rec(self, p_component, r, rec_shape, number):
         '''get row from rectangle'''
-        return self.rec(p_component, rec_shape, number)[r]
+        return self.rec(p_component, rec_shape, number)[r - rec_shape[0]]
 
 
     def dot_rec(self, p_component, r, z, rec_shape, number):
         '''get dot from rectangle'''
-        return(self.rec(p_component, rec_shape, number)[r,z])
+        return(self.rec(p_component, rec_shape, number)[r - rec_shape[0],z - rec_shape[1]])
 
 
     def rec_range(self, p_component, shape, start_number=0, end_number=None):
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 6225400..5b44c3d 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -265,7 +265,7 @@ class Reader:
 
     def col_rec_range(self, p_component, z, rec_shape, start_number=0, end_number=None):
         '''get column range from rec range'''
-        rsize = self.meta.geometry_grid[0]
+        rsize = self.__rec_size__(rec_shape)[0]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         crange = end_number - start_number
@@ -279,7 +279,7 @@ class Reader:
 
     def row_rec_range(self, p_component, r, rec_shape, start_number=0, end_number=None):
         '''get row range from rec range'''
-        rsize = self.meta.geometry_grid[1]
+        rsize = self.__rec_size__(rec_shape)[1]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         rrange = end_number - start_number
-- 
2.43.0


From d4e13c26afee25a76454096c50c78ed924df472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 63/86] fix: leave context of the reader without exception

---
 lib/python/picopic/h5_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index d178012..6d4f69d 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -17,7 +17,7 @@ GNU General Public License for more details.
 You should have received a copy of the GNU General Public License
 along with this program.  If not, see <http://www.gnu.org/licenses/>.
 """
-import os, sys, re
+import os, sys, re, errno
 
 import json
 import h5py
@@ -65,7 +65,7 @@ class H5Reader (Reader):
         return self
 
 
-    def __exit__(self):
+    def __exit__(self, exc_type, exc_value, traceback):
         self.__del__()
 
 
-- 
2.43.0


From 6dd22e8733a2a3bfb17bd30a9c425c4aee795f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 64/86] fix: read dot as a number, not as an array

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 6d4f69d..df90c5f 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -140,7 +140,7 @@ class H5Reader (Reader):
             sys.stdout.write("Loading data set {}/{}_{}..."
                              .format(p_component, p_type, r, z))
             sys.stdout.flush()
-        dot = self.file[path][number]
+        dot = self.file[path][number][0]
         if self.__verbose__:
             sys.stdout.write('done\n')
 
-- 
2.43.0


From de0f01fa20290632bde8e6cda3f520d5ec27d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:16 +0000
Subject: [PATCH 65/86] fix: write frames of the domains longer than 32767
 cells

---
 include/outWriter.hpp |  6 +++---
 src/outController.cpp |  2 +-
 src/outWriter.cpp     | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index dd001e1..609e60a 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -39,20 +39,20 @@ private:
   TimeSim *time;
   unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
-  std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
+  std::vector<int> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
   std::string path;
 
 public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
               unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
               unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
diff --git a/src/outController.cpp b/src/outController.cpp
index b407646..1df704e 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -109,7 +109,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           )
         {
           // calculate effective probe size
-          vector<short> eff_prb_size = {0,0,0,0};
+          vector<int> eff_prb_size = {0,0,0,0};
           if (prb_size[0] < domain_size[0])
             eff_prb_size[0] = domain_size[0];
           else
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index b81a2dc..214e70d 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -20,7 +20,7 @@
 using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
+                       vector<int> _position, vector<size_t> _engine_offset,
                        unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
@@ -34,7 +34,7 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
+                       vector<int> _position, vector<size_t> _engine_offset,
                        unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
@@ -63,8 +63,8 @@ void OutWriter::operator()()
       vector<vector<double>> val (position[2] - position[0],
                                   vector<double> (position[3] - position[1], 0));
 
-      for (short i = position[0]; i < position[2]; ++i)
-        for (short j = position[1]; j < position[3]; ++j)
+      for (int i = position[0]; i < position[2]; ++i)
+        for (int j = position[1]; j < position[3]; ++j)
           val[i - position[0]][j - position[1]] = (*values)(i, j);
 
       engine.write_rec(slice, val);
@@ -73,7 +73,7 @@ void OutWriter::operator()()
     case 1: // column shape
     {
       vector<double> val;
-      short col_offset = position[3];
+      int col_offset = position[3];
       for (unsigned int i = 0; i < values->x_size; ++i)
         val.push_back( (*values)(i, col_offset) );
 
@@ -83,7 +83,7 @@ void OutWriter::operator()()
     case 2: // row shape
     {
       vector<double> val;
-      short row_offset = position[2];
+      int row_offset = position[2];
       for (unsigned int i = 0; i < values->y_size; ++i)
         val.push_back( (*values)(row_offset, i) );
 
-- 
2.43.0


From 5165569f85864da5567ff9413ade0d6a8acfdb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 66/86] fix: do not collide particles of other masses as
 electrons

---
 src/collisions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index 4d16a5f..7711073 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -106,8 +106,12 @@ void Collisions::sort_to_cells()
       string cname = "Ions";
       if (name.compare((**ps).name) == 0 || cname.compare((**ps).name) == 0)
         map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
-      else
+      // masses of colliding particles are masses of electrons and ions. So, other
+      // particles (beams etc.) could collide only, if they have the same mass
+      else if ((**ps).mass == mass_el)
         map_el2cell(i_n_shift, k_n_shift).push_back((*i));
+      else if ((**ps).mass == mass_ion)
+        map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
     }
 }
 
-- 
2.43.0


From f7bacdfecdf27fa22819ca96d9655b12cfcab081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 67/86] fix: do not spoil vector, when it is changed by its own
 component

---
 include/math/vector3d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/vector3d.hpp b/include/math/vector3d.hpp
index b6d539e..69436b8 100644
--- a/include/math/vector3d.hpp
+++ b/include/math/vector3d.hpp
@@ -101,7 +101,7 @@ public:
   };
 
   // += for number and another vector3d
-  vector3d& operator+= (T const& rhs)&
+  vector3d& operator+= (T const rhs)& // copy, as rhs could be a component of the vector
   {
 #pragma omp simd
     for (unsigned short i=0; i<3; ++i)
@@ -120,7 +120,7 @@ public:
   };
 
   // -= for number and another vector3d
-  vector3d& operator-= (T const& rhs)&
+  vector3d& operator-= (T const rhs)& // copy, as rhs could be a component of the vector
   {
 #pragma omp simd
     for (unsigned short i=0; i<3; ++i)
@@ -139,7 +139,7 @@ public:
   };
 
   // *= for number and another vector3d
-  vector3d& operator*= (T const& rhs)&
+  vector3d& operator*= (T const rhs)& // copy, as rhs could be a component of the vector
   {
 #pragma omp simd
     for (unsigned short i=0; i<3; ++i)
@@ -158,7 +158,7 @@ public:
   };
 
   // /= for number and another vector3d
-  vector3d& operator/= (T const& rhs)&
+  vector3d& operator/= (T const rhs)& // copy, as rhs could be a component of the vector
   {
 #pragma omp simd
     for (unsigned short i=0; i<3; ++i)
-- 
2.43.0


From 24ff7089d3b34a2b292c54d33b0e535bb1a2f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 68/86] fix: let SMB see ENABLE_MPI before it is used

---
 include/SMB.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/SMB.hpp b/include/SMB.hpp
index 64bce63..0558612 100644
--- a/include/SMB.hpp
+++ b/include/SMB.hpp
@@ -24,12 +24,13 @@
 // #define omp_get_thread_num() 0
 #endif // _OPENMP
 
+#include "defines.hpp"
+
 #ifdef ENABLE_MPI
 #include <mpi.h>
 // using namespace MPI;
 #endif // ENABLE_MPI
 
-#include "defines.hpp"
 #include "constant.hpp"
 #include "msg.hpp"
 #include "algo/grid.hpp"
-- 
2.43.0


From 7c51435732ee9fb6edf71945a0e83323d7e8ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 69/86] fix: find domain for the particle from the other MPI
 node respecting to domains of different size

---
 src/SMB.cpp | 75 ++++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 924b56f..09023c3 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -261,25 +261,6 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
-                  ////
-                  //// check for conditions to send particle to previous/next SMB
-                  ////
-                  // send particle to previous SMB
-#ifdef ENABLE_MPI
-                  else if (z_cell < __geometry->cell_dims[1])
-                  {
-#pragma omp critical (runaway_minus)
-                    queue_particles_minus.push_back(o);
-                    res = true;
-                  }
-                  // send particle to next SMB
-                  else if (z_cell >= __geometry->cell_dims[3])
-                  {
-#pragma omp critical (runaway_plus)
-                    queue_particles_plus.push_back(o);
-                    res = true;
-                  }
-#endif // ENABLE_MPI
                   else if (r_cell >= __geometry->cell_dims[2])
                   {
                     // ``beam_'' at the begining of the name
@@ -302,6 +283,26 @@ void SMB::particles_runaway_collector ()
                     res = true;
                   }
 
+                  ////
+                  //// check for conditions to send particle to previous/next SMB
+                  ////
+                  // send particle to previous SMB
+#ifdef ENABLE_MPI
+                  else if (z_cell < __geometry->cell_dims[1])
+                  {
+#pragma omp critical (runaway_minus)
+                    queue_particles_minus.push_back(o);
+                    res = true;
+                  }
+                  // send particle to next SMB
+                  else if (z_cell >= __geometry->cell_dims[3])
+                  {
+#pragma omp critical (runaway_plus)
+                    queue_particles_plus.push_back(o);
+                    res = true;
+                  }
+#endif // ENABLE_MPI
+
                   // remove out-of-simulation particles
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
@@ -480,16 +481,15 @@ void SMB::particles_runaway_collector ()
         int r_cell = P_CELL_R((*n));
         int z_cell = P_CELL_Z((*n));
 
-        // FIXME: this is a hardcode
-        Domain *sim_domain = domains(0, 0);
-
-        unsigned int i_dst = (unsigned int)ceil (
-          ( r_cell - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[0] );
+        // domains could be different by size, if grid is not
+        // divided by domains amount completely
+        unsigned int i_dst = (unsigned int)(
+          ( ( r_cell - geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+            * domains.x_size - 1 ) / geometry->cell_amount[0] );
 
-        unsigned int j_dst = (unsigned int)ceil (
-          ( z_cell - geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[1] );
+        unsigned int j_dst = (unsigned int)(
+          ( ( z_cell - geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+            * domains.y_size - 1 ) / geometry->cell_amount[1] );
 
         Domain *dst_domain = domains(i_dst, j_dst);
 
@@ -535,17 +535,16 @@ void SMB::particles_runaway_collector ()
         int r_cell = P_CELL_R((*n));
         int z_cell = P_CELL_Z((*n));
 
-
         // this is unshifted domain numbers (local for SMB)
-        Domain *sim_domain = domains(0, 0);
-
-        unsigned int i_dst = (unsigned int)ceil (
-          ( r_cell - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[0] );
-
-        unsigned int j_dst = (unsigned int)ceil (
-          ( z_cell - geometry->cell_dims[1] ) // we should make cell numbers local for SMB
-          / sim_domain->geometry.cell_amount[1] );
+        // domains could be different by size, if grid is not
+        // divided by domains amount completely
+        unsigned int i_dst = (unsigned int)(
+          ( ( r_cell - geometry->cell_dims[0] + 1 ) // we should make cell numbers local for SMB
+            * domains.x_size - 1 ) / geometry->cell_amount[0] );
+
+        unsigned int j_dst = (unsigned int)(
+          ( ( z_cell - geometry->cell_dims[1] + 1 ) // we should make cell numbers local for SMB
+            * domains.y_size - 1 ) / geometry->cell_amount[1] );
 
         Domain *dst_domain = domains(i_dst, j_dst);
 
-- 
2.43.0


From 145931b451f044d48d6e7c64adeae577e17f3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 70/86] fix: MPI nodes do not wait for each other forever,
 sending to both of neighbours

---
 src/SMB.cpp | 94 +++++++++++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 09023c3..0568c18 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -413,34 +413,6 @@ void SMB::particles_runaway_collector ()
       }
   }
 
-  if (world_rank > 0)
-  {
-    MPI_Send (
-      /* data         = */ &prtls_minus,
-      /* count        = */ 1,
-      /* datatype     = */ MPI_UNSIGNED,
-      /* destination  = */ world_rank - 1,
-      /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
-
-    LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
-               << world_rank
-               << "'' to node ``" << world_rank - 1
-               << "'' is ``" << prtls_minus << "''";
-
-    if (prtls_minus > 0)
-      for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
-      {
-        MPI_Send (
-          /* data         = */ &(*queue_particles_minus[prtl]),
-          /* count        = */ 1,
-          /* datatype     = */ mpi_prtl_type,
-          /* destination  = */ world_rank - 1,
-          /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
-      }
-  }
-
   ////
   //// receive particles from other MPI nodes
   ////
@@ -500,6 +472,36 @@ void SMB::particles_runaway_collector ()
       }
   }
 
+  // send back only after receiving: if everybody sends at first,
+  // nodes can wait for each other forever
+  if (world_rank > 0)
+  {
+    MPI_Send (
+      /* data         = */ &prtls_minus,
+      /* count        = */ 1,
+      /* datatype     = */ MPI_UNSIGNED,
+      /* destination  = */ world_rank - 1,
+      /* tag          = */ 0,
+      /* communicator = */ MPI_COMM_WORLD);
+
+    LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
+               << world_rank
+               << "'' to node ``" << world_rank - 1
+               << "'' is ``" << prtls_minus << "''";
+
+    if (prtls_minus > 0)
+      for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
+      {
+        MPI_Send (
+          /* data         = */ &(*queue_particles_minus[prtl]),
+          /* count        = */ 1,
+          /* datatype     = */ mpi_prtl_type,
+          /* destination  = */ world_rank - 1,
+          /* tag          = */ 0,
+          /* communicator = */ MPI_COMM_WORLD);
+      }
+  }
+
   if (world_rank < world_size - 1)
   {
     unsigned int howrcv; // how many particles to receive
@@ -713,17 +715,17 @@ void SMB::current_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
@@ -947,17 +949,17 @@ void SMB::field_h_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
@@ -1174,17 +1176,17 @@ void SMB::field_e_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From 24ee323cec7797261ab26fa0cce21b995bbdd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 71/86] fix: free MPI type of the particle

---
 src/SMB.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 0568c18..c614450 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -570,6 +570,8 @@ void SMB::particles_runaway_collector ()
     delete *q;
 
   queue_particles_plus.clear();
+
+  MPI_Type_free(&mpi_prtl_type);
 #endif // ENABLE_MPI
   ////
   ////
-- 
2.43.0


From 416a4864d25b38304c279a01ad231cbeb3d9115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 72/86] fix: exchange corners of the current between MPI nodes

---
 src/SMB.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index c614450..8d7130f 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -617,6 +617,34 @@ void SMB::current_overlay ()
     }
 
 #ifdef ENABLE_MPI
+  ////
+  //// sum up overlapping corners, that belong to the other nodes
+  //// (overlay_x skips it)
+  ////
+  for (unsigned int i = 0; i + 1 < r_domains; ++i)
+    for (unsigned int c = 0; c < 3; ++c)
+    {
+      Grid<double> minus_bot = domains(i, 0)->current->current[c];
+      Grid<double> minus_top = domains(i + 1, 0)->current->current[c];
+      Grid<double> plus_bot = domains(i, z_domains - 1)->current->current[c];
+      Grid<double> plus_top = domains(i + 1, z_domains - 1)->current->current[c];
+
+      int o_s = minus_bot.o_s;
+
+      for (int j = -o_s; j < o_s; ++j)
+        for (int k = 0; k < o_s; ++k)
+        {
+          double sum_minus = minus_bot(minus_bot.x_size + j, k - o_s) + minus_top(j, k - o_s);
+          double sum_plus = plus_bot(plus_bot.x_size + j, plus_bot.y_size + k)
+            + plus_top(j, plus_top.y_size + k);
+
+          minus_bot.set(minus_bot.x_size + j, k - o_s, sum_minus);
+          minus_top.set(j, k - o_s, sum_minus);
+          plus_bot.set(plus_bot.x_size + j, plus_bot.y_size + k, sum_plus);
+          plus_top.set(j, plus_top.y_size + k, sum_plus);
+        }
+    }
+
   ////
   //// send particles to other domain
   ////
-- 
2.43.0


From e00008286c236e937eeccc47eee874b01920a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 73/86] fix: exchange magnetic field, that moves particles,
 between MPI nodes

---
 src/SMB.cpp | 275 +++++++++++++++++++++++++++-------------------------
 1 file changed, 141 insertions(+), 134 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 8d7130f..2870ea1 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -879,187 +879,194 @@ void SMB::field_h_overlay ()
     }
 
 #ifdef ENABLE_MPI
-  ////
-  //// send particles to other domain
-  ////
-  vector<MPICommOverlay> domains_plus;
-  vector<MPICommOverlay> domains_minus;
+  // both of fields are required by neighbour nodes
+  Grid3D<double> MaxwellSolverYee::* const fields[] =
+    { &MaxwellSolverYee::field_h, &MaxwellSolverYee::field_h_at_et };
 
-  vector<MPICommOverlay> domains_plus_recv;
-  vector<MPICommOverlay> domains_minus_recv;
-
-  for (unsigned int i = 0; i < r_domains; ++i)
+  for (auto field : fields)
   {
-    // send to +1 rank
-    Domain *sim_domain_plus = domains(i, z_domains - 1);
+    ////
+    //// send particles to other domain
+    ////
+    vector<MPICommOverlay> domains_plus;
+    vector<MPICommOverlay> domains_minus;
 
-    int domain_r_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-    int domain_r_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_real_size;
-    int domain_o_s = sim_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-    int domain_z_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-    int domain_z_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+    vector<MPICommOverlay> domains_plus_recv;
+    vector<MPICommOverlay> domains_minus_recv;
 
-    MPICommOverlay item_plus (domain_r_real_size, i, 0);
-    MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
-
-    // for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-    for (int j = 0; j < domain_r_real_size; ++j)
+    for (unsigned int i = 0; i < r_domains; ++i)
     {
-      int j_s = j - domain_o_s;
-      int d_r_s = domain_z_size + domain_o_s;
+      // send to +1 rank
+      Domain *sim_domain_plus = domains(i, z_domains - 1);
 
-      item_plus.col_0_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 4);
-      item_plus.col_0_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 4);
-      item_plus.col_0_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 4);
+      int domain_r_size = (sim_domain_plus->maxwell_solver->*field)[0].x_size;
+      int domain_r_real_size = (sim_domain_plus->maxwell_solver->*field)[0].x_real_size;
+      int domain_o_s = (sim_domain_plus->maxwell_solver->*field)[0].o_s;
+      int domain_z_size = (sim_domain_plus->maxwell_solver->*field)[0].y_size;
+      int domain_z_real_size = (sim_domain_plus->maxwell_solver->*field)[0].y_real_size;
 
-      item_plus.col_1_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 3);
-      item_plus.col_1_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 3);
-      item_plus.col_1_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 3);
+      MPICommOverlay item_plus (domain_r_real_size, i, 0);
+      MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
 
-      item_plus.col_2_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 2);
-      item_plus.col_2_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 2);
-      item_plus.col_2_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 2);
+      // for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+      for (int j = 0; j < domain_r_real_size; ++j)
+      {
+        int j_s = j - domain_o_s;
+        int d_r_s = domain_z_size + domain_o_s;
 
-      item_plus.col_3_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 1);
-      item_plus.col_3_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 1);
-      item_plus.col_3_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 1);
-    }
+        item_plus.col_0_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 4);
+        item_plus.col_0_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 4);
+        item_plus.col_0_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 4);
 
-    domains_plus.push_back( item_plus );
-    domains_plus_recv.push_back( item_plus_recv );
+        item_plus.col_1_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 3);
+        item_plus.col_1_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 3);
+        item_plus.col_1_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 3);
 
-    // send to -1 rank
-    Domain *sim_domain_minus = domains(i, 0);
+        item_plus.col_2_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 2);
+        item_plus.col_2_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 2);
+        item_plus.col_2_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 2);
 
-    domain_r_size = sim_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-    domain_o_s = sim_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
+        item_plus.col_3_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 1);
+        item_plus.col_3_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 1);
+        item_plus.col_3_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 1);
+      }
 
-    MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
-    MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
+      domains_plus.push_back( item_plus );
+      domains_plus_recv.push_back( item_plus_recv );
 
-    for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-    {
-      int j_s = j + domain_o_s;
+      // send to -1 rank
+      Domain *sim_domain_minus = domains(i, 0);
 
-      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 0 - domain_o_s);
-      item_minus.col_0_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 0 - domain_o_s);
-      item_minus.col_0_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 0 - domain_o_s);
+      domain_r_size = (sim_domain_minus->maxwell_solver->*field)[0].x_size;
+      domain_o_s = (sim_domain_minus->maxwell_solver->*field)[0].o_s;
 
-      item_minus.col_1_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 1 - domain_o_s);
-      item_minus.col_1_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 1 - domain_o_s);
-      item_minus.col_1_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 1 - domain_o_s);
+      MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
+      MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
 
-      item_minus.col_2_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 2 - domain_o_s);
-      item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 2 - domain_o_s);
-      item_minus.col_2_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 2 - domain_o_s);
+      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+      {
+        int j_s = j + domain_o_s;
 
-      item_minus.col_3_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 3 - domain_o_s);
-      item_minus.col_3_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 3 - domain_o_s);
-      item_minus.col_3_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 3 - domain_o_s);
-    }
+        item_minus.col_0_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 0 - domain_o_s);
+        item_minus.col_0_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 0 - domain_o_s);
+        item_minus.col_0_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 0 - domain_o_s);
 
-    domains_minus.push_back( item_minus );
-    domains_minus_recv.push_back( item_minus_recv );
-  }
+        item_minus.col_1_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 1 - domain_o_s);
+        item_minus.col_1_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 1 - domain_o_s);
+        item_minus.col_1_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 1 - domain_o_s);
 
-  if (world_rank < world_size - 1)
-  {
-    for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
-    }
+        item_minus.col_2_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 2 - domain_o_s);
+        item_minus.col_2_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 2 - domain_o_s);
+        item_minus.col_2_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 2 - domain_o_s);
 
-    for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
-    {
-      // LOG_S(WARNING) << "4 Receiving from " << world_rank + 1 << " at " << world_rank;
-      MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, NULL);
+        item_minus.col_3_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 3 - domain_o_s);
+        item_minus.col_3_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 3 - domain_o_s);
+        item_minus.col_3_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 3 - domain_o_s);
+      }
+
+      domains_minus.push_back( item_minus );
+      domains_minus_recv.push_back( item_minus_recv );
     }
-  }
 
-  if (world_rank > 0)
-  {
-    for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+    if (world_rank < world_size - 1)
     {
-      // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
-      MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
+      for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
+      {
+        // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
+        MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      }
+
+      for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
+      {
+        // LOG_S(WARNING) << "4 Receiving from " << world_rank + 1 << " at " << world_rank;
+        MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, NULL);
+      }
     }
 
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    if (world_rank > 0)
     {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+      {
+        // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
+        MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
+      }
+
+      for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+      {
+        // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+        MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      }
     }
-  }
 
-  MPI_Barrier(MPI_COMM_WORLD);
+    MPI_Barrier(MPI_COMM_WORLD);
 
-  ////////////////////////////////////////////////////////////
+    ////////////////////////////////////////////////////////////
 
-  if (world_rank > 0)
-    for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
-    {
-      Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
+    if (world_rank > 0)
+      for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+      {
+        Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
 
-      int domain_r_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].y_size;
+        int domain_r_size = (dst_domain_minus->maxwell_solver->*field)[0].x_size;
+        int domain_o_s = (dst_domain_minus->maxwell_solver->*field)[0].o_s;
+        int domain_z_size = (dst_domain_minus->maxwell_solver->*field)[0].y_size;
 
-      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-      {
-        int j_s = j + domain_o_s;
+        for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+        {
+          int j_s = j + domain_o_s;
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
+          (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+        }
       }
-    }
 
-  if (world_rank < world_size - 1)
-    for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
-    {
+    if (world_rank < world_size - 1)
+      for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
+      {
 
-      Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
+        Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
 
-      int domain_r_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-      int domain_z_real_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+        int domain_r_size = (dst_domain_plus->maxwell_solver->*field)[0].x_size;
+        int domain_o_s = (dst_domain_plus->maxwell_solver->*field)[0].o_s;
+        int domain_z_size = (dst_domain_plus->maxwell_solver->*field)[0].y_size;
+        int domain_z_real_size = (dst_domain_plus->maxwell_solver->*field)[0].y_real_size;
 
-      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-      {
-        int j_s = j + domain_o_s;
-        int d_r_s = domain_z_size + domain_o_s;
+        for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+        {
+          int j_s = j + domain_o_s;
+          int d_r_s = domain_z_size + domain_o_s;
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
+          (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+        }
       }
-    }
+  }
 #endif // ENABLE_MPI
 }
 
-- 
2.43.0


From 8359f3079926d86bf6eecc67f97d8299c4b74136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 74/86] fix: do not lose cells and domains, that can not be
 divided by number of MPI nodes

---
 src/PiCoPiC.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 0ccbce2..2f96366 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -213,13 +213,18 @@ int main(int argc, char **argv)
     for (auto k = cfg.particle_species.begin(); k != cfg.particle_species.end(); ++k)
       k->macro_amount /= NPROCS;
 
-    // update cell dimensions
-    size_t smb_cell_amount = geometry_global->cell_amount[1] / NPROCS;
-    size_t smb_domains_amount = geometry_global->domains_amount[1] / NPROCS;
-    double smb_z_size = geometry_global->size[1] / NPROCS;
-
-    size_t smb_cell_begin = smb_cell_amount * ID;
-    size_t smb_cell_end = smb_cell_amount * ( ID + 1 );
+    if (geometry_global->domains_amount[1] < NPROCS)
+      LOG_S(FATAL) << "Amount of domains by longitude ``" << geometry_global->domains_amount[1]
+                   << "'' is less, than number of MPI processes ``" << NPROCS << "''";
+
+    // update cell dimensions (cells and domains, that can not be
+    // divided by number of processes completely, should not be lost)
+    size_t smb_cell_begin = geometry_global->cell_amount[1] * ID / NPROCS;
+    size_t smb_cell_end = geometry_global->cell_amount[1] * ( ID + 1 ) / NPROCS;
+    size_t smb_cell_amount = smb_cell_end - smb_cell_begin;
+    size_t smb_domains_amount = geometry_global->domains_amount[1] * ( ID + 1 ) / NPROCS
+      - geometry_global->domains_amount[1] * ID / NPROCS;
+    double smb_z_size = geometry_global->cell_size[1] * smb_cell_amount;
 
     geometry_smb->cell_amount[1] = smb_cell_amount;
     geometry_smb->domains_amount[1] = smb_domains_amount;
-- 
2.43.0


From 99a227c1a7e0e0cb6db5742b137cdee3a787acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 75/86] fix: calculate debye length for method limits with own
 temperatures of electrons and ions

---
 src/cfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index bf62acf..c3f15ae 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -703,7 +703,7 @@ bool Cfg::method_limitations_check ()
 
   // cell size d{r,z} < \lambda debye
 
-  double debye_length = phys::plasma::debye_length (electron_density, ion_density, ion_temperature, electron_temperature);
+  double debye_length = phys::plasma::debye_length (electron_density, ion_density, electron_temperature, ion_temperature);
   unsigned int debye_multiplicator = 100;
 
   if ( electron_temperature != 0)
-- 
2.43.0


From 275c8c38d5db7034333ab51cc9d6f8d4471a5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 76/86] fix: compare amount of macroparticles with all the
 cells of the grid

---
 src/cfg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index c3f15ae..9cbb134 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -743,12 +743,12 @@ bool Cfg::method_limitations_check ()
 
   unsigned int grid_multiplicator = 10;
 
-  if (geometry->cell_amount[0] * geometry->cell_amount[0] * grid_multiplicator > full_macro_amount)
+  if (geometry->cell_amount[0] * geometry->cell_amount[1] * grid_multiplicator > full_macro_amount)
   {
     LOG_S(WARNING) << "Too small amount of macroparticles: ``"
              << full_macro_amount
              << "''. Should be more, than ``"
-             <<  geometry->cell_amount[0] * geometry->cell_amount[0] * grid_multiplicator
+             <<  geometry->cell_amount[0] * geometry->cell_amount[1] * grid_multiplicator
              << "''. You could get not relevant results";
   }
 
-- 
2.43.0


From 2f9141fc93c38fa613b87009b1d36b564dcc2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 77/86] fix: do not write to /tmp/tinycache, when the reader is
 imported

---
 lib/python/picopic/tinycache.py | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/lib/python/picopic/tinycache.py b/lib/python/picopic/tinycache.py
index 2f8df33..4e5afbb 100644
--- a/lib/python/picopic/tinycache.py
+++ b/lib/python/picopic/tinycache.py
@@ -65,22 +65,3 @@ class TinyCache:
         intvalue = numpy.asarray(value, dtype='float')
         self.__cache__[key] = intvalue
         intvalue.tofile(cache_file)
-
-
-# In[42]:
-
-
-tc = TinyCache("/tmp/tinycache")
-
-
-# In[43]:
-
-
-tc.update_cache("test", 150)
-
-
-# In[44]:
-
-
-tc.get_cache("test")
-
-- 
2.43.0


From bbaad83b4c38fca6e92c42912fbb458670e83c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 78/86] fix: keep shape of the cached value between sessions

---
 lib/python/picopic/tinycache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python/picopic/tinycache.py b/lib/python/picopic/tinycache.py
index 4e5afbb..be3a39d 100644
--- a/lib/python/picopic/tinycache.py
+++ b/lib/python/picopic/tinycache.py
@@ -21,7 +21,6 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import os
 import numpy
-from numpy import fromfile
 
 class TinyCache:
     def __init__(self, path):
@@ -51,7 +50,7 @@ class TinyCache:
         
         if self.__contains__(key):
             if not key in self.__cache__:
-                self.__cache__[key] = fromfile(cache_file, dtype='float')
+                self.__cache__[key] = numpy.load(cache_file)
                 cache_value = self.__cache__[key]
             else:
                 cache_value = self.__cache__[key]
@@ -64,4 +63,5 @@ class TinyCache:
         
         intvalue = numpy.asarray(value, dtype='float')
         self.__cache__[key] = intvalue
-        intvalue.tofile(cache_file)
+        with open(cache_file, 'wb') as f:
+            numpy.save(f, intvalue)
-- 
2.43.0


From 5a03f8e29da4d035a2de58626270e1a138dc27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:42 +0000
Subject: [PATCH 79/86] fix: collide all the particles of the cell, when
 amounts of electrons and ions are different

---
 src/collisions/collisionsP12.cpp   | 32 +++++++++++++++---------------
 src/collisions/collisionsSK98.cpp  | 32 +++++++++++++++---------------
 src/collisions/collisionsTA77S.cpp | 32 +++++++++++++++---------------
 3 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 99e9e18..84d98b5 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -471,19 +471,19 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -494,7 +494,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -506,19 +506,19 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -529,7 +529,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 11e08f6..aedb0d4 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -378,19 +378,19 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -401,7 +401,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -413,19 +413,19 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -436,7 +436,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index bbcbb88..beb3f25 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,19 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
+        unsigned int ions_2nd_group = c_i * els_2nd_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +369,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +381,19 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        // integer arithmetic, as rounding should not leave particles without collisions
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
+        unsigned int els_2nd_group = c_i * ions_2nd_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +404,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From 58ecb05840c954fa036c552cd719c04f6377a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 80/86] fix: collide triplets of particles with half of the
 time step

---
 include/collisions/collisionsP12.hpp   |  2 +-
 include/collisions/collisionsSK98.hpp  |  2 +-
 include/collisions/collisionsTA77S.hpp |  2 +-
 src/collisions/collisionsP12.cpp       | 30 +++++++++++++++-----------
 src/collisions/collisionsSK98.cpp      | 26 +++++++++++++---------
 src/collisions/collisionsTA77S.cpp     | 26 +++++++++++++---------
 6 files changed, 53 insertions(+), 35 deletions(-)

diff --git a/include/collisions/collisionsP12.hpp b/include/collisions/collisionsP12.hpp
index a01c0ce..94f12d1 100644
--- a/include/collisions/collisionsP12.hpp
+++ b/include/collisions/collisionsP12.hpp
@@ -35,7 +35,7 @@ public:
   void collide_single(double m_real_a, double m_real_b,
                       double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye, double time_fraction = 1);
 
   void operator()();
 
diff --git a/include/collisions/collisionsSK98.hpp b/include/collisions/collisionsSK98.hpp
index 74ac7c1..1507fd5 100644
--- a/include/collisions/collisionsSK98.hpp
+++ b/include/collisions/collisionsSK98.hpp
@@ -30,7 +30,7 @@ public:
   void collide_single(double m_real_a, double m_real_b,
 		      double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye, double time_fraction = 1);
 
   void operator()();
 
diff --git a/include/collisions/collisionsTA77S.hpp b/include/collisions/collisionsTA77S.hpp
index a4e372e..12d0469 100644
--- a/include/collisions/collisionsTA77S.hpp
+++ b/include/collisions/collisionsTA77S.hpp
@@ -31,7 +31,7 @@ public:
   void collide_single(double m_real_a, double m_real_b,
 		      double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye, double time_fraction = 1);
 
   void operator()();
 
diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 84d98b5..f1eb300 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -30,8 +30,12 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
                                    double q_real_a, double q_real_b,
                                    Particle &pa, Particle &pb,
                                    double _density_a, double _density_b,
-                                   double _debye)
+                                   double _debye,
+                                   double time_fraction)
 {
+  // pair could collide during the part of the time step only
+  double step = time->step * time_fraction;
+
   // get required parameters
   double charge_a, mass_a, charge_b, mass_b, w_a, w_b, density_a, density_b;
   bool swap = false;
@@ -171,7 +175,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     s12 = density_w
 
-      * time->step * L_coulomb * pow(charge_a * charge_b, 2)
+      * step * L_coulomb * pow(charge_a * charge_b, 2)
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
@@ -187,7 +191,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
   {
     s12 = density_w *
-      time->step * L_coulomb * pow(charge_a * charge_b, 2)
+      step * L_coulomb * pow(charge_a * charge_b, 2)
       / ( 4 * constant::PI * pow(constant::EPSILON0 * mass_ab, 2) * pow(v_rel_abs, 3) );
   }
 
@@ -196,7 +200,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       && density_w > 7e13) // density should be solid enough
   {
     double s12max = pow(FOUR_OVER_3 * constant::PI, ONE_OVER_3)
-      * density_w * time->step
+      * density_w * step
       * (mass_a + mass_b)
       / max(mass_a * pow(density_a, TWO_OVER_3),
             mass_b * pow(density_b, TWO_OVER_3))
@@ -393,25 +397,26 @@ void CollisionsP12::collide ()
       {
         if (vec_size_ions >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -428,25 +433,26 @@ void CollisionsP12::collide ()
       {
         if (vec_size_electrons >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index aedb0d4..768727d 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -30,8 +30,12 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
                                     double q_real_a, double q_real_b,
                                     Particle &pa, Particle &pb,
                                     double _density_a, double _density_b,
-                                    double debye)
+                                    double debye,
+                                    double time_fraction)
 {
+  // pair could collide during the part of the time step only
+  double step = time->step * time_fraction;
+
   // get required parameters
   double charge_a, mass_a, charge_b, mass_b, density_a, density_b; //, w_a, w_b;
   bool swap = false;
@@ -163,7 +167,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
                                                         p_rel_abs,
                                                         v_rel_abs );
 
-  double variance_d = coll_freq * time->step;
+  double variance_d = coll_freq * step;
 
   //// find standard deviation of delta
   double std_dev_d = algo::common::sq_rt(variance_d);
@@ -300,25 +304,26 @@ void CollisionsSK98::collide ()
       {
         if (vec_size_ions >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -335,25 +340,26 @@ void CollisionsSK98::collide ()
       {
         if (vec_size_electrons >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index beb3f25..4acb04b 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -32,8 +32,12 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
                                      double q_real_a, double q_real_b,
                                      Particle &pa, Particle &pb,
                                      double _density_a, double _density_b,
-                                     double debye)
+                                     double debye,
+                                     double time_fraction)
 {
+  // pair could collide during the part of the time step only
+  double step = time->step * time_fraction;
+
   // get required parameters
   double vr_a, vphi_a, vz_a, charge_a, mass_a, vr_b, vphi_b, vz_b,
     charge_b, mass_b, density_a, density_b;
@@ -104,7 +108,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   //// find variance of delta
   double variance_d = pow(charge_a, 2) * pow(charge_b, 2) * density_lowest
     * lambda_coulomb / (8 * constant::PI * pow(EPSILON0, 2) * pow(m_ab, 2) * pow(u, 3))
-    * time->step;
+    * step;
 
   //// find standard deviation of delta
   double std_dev_d = algo::common::sq_rt(variance_d);
@@ -268,25 +272,26 @@ void CollisionsTA77S::collide ()
       {
         if (vec_size_ions >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -303,25 +308,26 @@ void CollisionsTA77S::collide ()
       {
         if (vec_size_electrons >= 3)
         {
-          // first 3 collisions in special way
+          // first 3 collisions in special way: every particle of the triplet
+          // collides twice, with half of the time step
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
-- 
2.43.0


From 76fa42a2c45f5eabf10d9790d6e913ffffd8bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 81/86] fix: convert SK98 scattering angle to center-of-mass
 frame from the rest frame of particle

---
 src/collisions/collisionsSK98.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 768727d..0670fec 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -177,10 +177,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double sin_theta = 2 * delta / (1 + pow(delta, 2));
   double cos_theta = 1 - 2 * pow(delta, 2) / (1 + pow(delta, 2));
 
-  // find theta angle for the COM frame
-  double tg_theta_cm = sin_theta / (gamma_cm * ( cos_theta - algo::common::sq_rt(v_cm_2) / v_rel_abs ) );
-  double sin_theta_cm = sin(atan(tg_theta_cm));
-  double cos_theta_cm = cos(atan(tg_theta_cm));
+  // find theta angle for the COM frame (theta is the angle in the rest frame of a-particle,
+  // where COM frame moves with velocity of a-particle in COM frame)
+  double theta_cm = atan2(sin_theta, gamma_a_cm * ( cos_theta - v_a_cm.length() / v_rel_abs ));
+  double sin_theta_cm = sin(theta_cm);
+  double cos_theta_cm = cos(theta_cm);
 
   // find Phi angle
   double phi_angle = math::random::uniform_angle();
-- 
2.43.0


From 5b9ee3643b308fa63903dbce9c3ce913d3e3955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 82/86] fix: do not repeat the same pairs of colliding
 particles in all the cells and time steps

---
 src/collisions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index 7711073..e73d406 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -50,6 +50,9 @@ Collisions::Collisions (Geometry* _geometry, TimeSim *_time, vector <SpecieP *>
   if (specie_el == nullptr || specie_ion == nullptr)
     LOG_S(FATAL) << "Both of ``electrons'' and ``ions'' species are required to collide";
 
+  // only once, as pairs should be different in every cell and at every time step
+  std::srand ( unsigned ( std::time(0) ) );
+
   map_el2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   map_ion2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
 
@@ -121,7 +124,6 @@ void Collisions::random_sort ()
   for (int i = 0; i < geometry->cell_amount[0]; ++i)
     for (int j = 0; j < geometry->cell_amount[1]; ++j)
     {
-      std::srand ( unsigned ( std::time(0) ) );
       std::random_shuffle(map_el2cell(i, j).begin(), map_el2cell(i, j).end());
       std::random_shuffle(map_ion2cell(i, j).begin(), map_ion2cell(i, j).end());
     }
-- 
2.43.0


From 72859e5d10e2cf3da56e9aa65c2419150ef75d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 83/86] fix: calculate P12 scattering with the lowest of
 densities

---
 src/collisions/collisionsP12.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f1eb300..baf9c64 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -165,11 +165,12 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // get coulomb logarithm
   double L_coulomb = phys::plasma::coulomb_logarithm (mass_a, mass_b, debye, v_rel_abs);
 
-  // n weighted
-  double density_w = density_a * density_b / min (density_a, density_b);
+  // n weighted: the most numerous particles collide with probability,
+  // determined by density of the least numerous ones
+  double density_w = density_a * density_b / max (density_a, density_b);
   double mass_ab = mass_a * mass_b / (mass_a + mass_b);
 
-  // P12: calculate s_{1, 2} --- CM frame. FIXME: should be n_2 instead of density_highest
+  // P12: calculate s_{1, 2} --- CM frame
   double s12;
   if (v_a.length2() > REL_LIMIT_POW_2 || v_b.length2() > REL_LIMIT_POW_2)
   {
-- 
2.43.0


From 2d52908ff2e17bcbf56d7e44d40a1a848db98104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 84/86] fix: calculate P12 relativistic scattering with the
 momentum in center-of-mass frame

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index baf9c64..86506af 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -180,7 +180,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
-      * gamma_cm * p_a.length()
+      * gamma_cm * p_a_cm.length()
       / (mass_a * gamma_a + mass_b * gamma_b)
 
       * pow(
-- 
2.43.0


From 03a1b729f44683d31491302b2e92b276bf3512d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 85/86] fix: weight current of particle, that leaves exactly
 the cell edge to the center

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 70efe24..72665b9 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -226,7 +226,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (i_o > i_n)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
-- 
2.43.0


From db1ea4014dd5147ac3ea28b257a65dea4b4529fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 86/86] fix: deflect P12 colliding particles with probability,
 determined by ratio of their weights

---
 src/collisions/collisionsP12.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 86506af..4acfea5 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -262,12 +262,16 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     + p_a_cm[1] * cos_xi_cm;
   p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
 
-  // find deflection probability
+  // find deflection probability. Macroparticle, that represents less
+  // real particles, is always deflected, the other one - only
+  // with probability, determined by the ratio of their weights
   double U_defl = math::random::uniform();
-  // double w_ab = min( w_a , w_b);
+  double w_ab_max = max(w_a, w_b);
+  double defl_prob_a = w_b / w_ab_max;
+  double defl_prob_b = w_a / w_ab_max;
 
   vector3d<double> v_a_prime, v_b_prime;
-  if (U_defl < w_a)
+  if (U_defl < defl_prob_a)
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
@@ -279,7 +283,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     v_a_prime *= gamma_a_prime_inv;
   }
 
-  if (U_defl < w_b)
+  if (U_defl < defl_prob_b)
   {
     vector3d<double> p_b_prime;
 
@@ -311,14 +315,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     // deflect particles only with some probability
     // according to rejection scheme
-    if (U_defl < w_a)
+    if (U_defl < defl_prob_b)
     {
       P_VEL_R(pa) = v_b_prime[0];
       P_VEL_PHI(pa) = v_b_prime[1];
       P_VEL_Z(pa) = v_b_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (U_defl < defl_prob_a)
     {
       P_VEL_R(pb) = v_a_prime[0];
       P_VEL_PHI(pb) = v_a_prime[1];
@@ -327,14 +331,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   }
   else
   {
-    if (U_defl < w_a)
+    if (U_defl < defl_prob_a)
     {
       P_VEL_R(pa) = v_a_prime[0];
       P_VEL_PHI(pa) = v_a_prime[1];
       P_VEL_Z(pa) = v_a_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (U_defl < defl_prob_b)
     {
       P_VEL_R(pb) = v_b_prime[0];
       P_VEL_PHI(pb) = v_b_prime[1];
-- 
2.43.0

