From 4940535ebc35ccb722616296bbb62e0f3f2a0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 01/29] fix: dispatch the HLL Riemann solver for 3D hydro
 states

riemann_hydro(HydroState3d) had no RIEMANN_HLL branch, so hydro.riemann=hll
left the interface flux uninitialised in 3D runs.
---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From 8a1228ca08f43cb9b19a28e74799b03e7de372db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 02/29] fix: guard the HLLD star states against a vanishing
 denominator

The guard tested estar/a^2 against one, while the quantity that vanishes
(without tangential field and a fast speed equal to the Alfven speed) is estar
itself: the star states were 0/0 and the flux NaN. (Miyoshi & Kusano 2005,
section 5.3; RAMSES uses the same test on estar.)
---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..d0125cb 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (fabs(estar) <= 1e-8 * a * a)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (fabs(estar) <= 1e-8 * a * a)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From 74f90083b17d0073eef955e700800742e079a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 03/29] fix: never select a Riemann solver that does not exist
 for the equations solved

With hydro.riemann=approx (the default) or hllc an MHD run, and with
hydro.riemann=hlld a hydro run, went through a dispatch without a matching
branch: the interface fluxes were left uninitialised.
---
 src/shared/HydroParams.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 2a744e6..0dd2df3 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -200,6 +200,21 @@ HydroParams::setup(ConfigMap & configMap)
     riemannSolverType = RIEMANN_APPROX;
   }
 
+  // some solvers are hydro-only, some others are MHD-only
+  if (mhdEnabled and
+      (riemannSolverType == RIEMANN_APPROX or riemannSolverType == RIEMANN_HLLC))
+  {
+    std::cout << "Riemann Solver specified in parameter file is hydro-only\n";
+    std::cout << "Use the default one for MHD : hlld\n";
+    riemannSolverType = RIEMANN_HLLD;
+  }
+  else if (!mhdEnabled and riemannSolverType == RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver specified in parameter file is MHD-only\n";
+    std::cout << "Use the default one for hydro : approx\n";
+    riemannSolverType = RIEMANN_APPROX;
+  }
+
   implementationVersion = configMap.getFloat("OTHER", "implementationVersion", 0);
   if (implementationVersion != 0 and implementationVersion != 1 and implementationVersion != 2)
   {
-- 
2.43.0


From a1bcd216d8b5537ad31e1b075ff25e427c228092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 04/29] fix: do not add the slope increment twice to By at the
 edges of the 3D MHD scheme (implementation 2)

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From 7f84cd792788b8d710b808b0eae2b08892e52a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 05/29] fix: use the lower neighbour along z in the limited
 magnetic slopes of the 3D MHD scheme

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From 94ff934bdebe274404ca807236151a398f51f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 06/29] fix: use the lower z neighbour for the slope of the
 third magnetic component in 3D MHD

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index a062d1c..adfa142 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -455,7 +455,7 @@ public:
                                     qPlusY[IC],
                                     qMinusY[IC],
                                     qPlusZ[IC],
-                                    qMinusY[IC],
+                                    qMinusZ[IC],
                                     &(dqX[IC]),
                                     &(dqY[IC]),
                                     &(dqZ[IC]));
-- 
2.43.0


From 4f3b58f102be17176b97a598e6ae1cdf651aaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 07/29] fix: do not halve the out-of-plane magnetic field in
 the 2D MHD primitive variables

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..2caaf20 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC); // no variation along z in 2D
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From 9abd45bc3f437a154bef15e6e9a4a4bb306f622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 08/29] fix: slope_type 0 gives zero slopes in the MHD schemes
 instead of uninitialised ones

---
 src/muscl/MHDBaseFunctor2D.h | 15 +++++++++++++++
 src/muscl/MHDBaseFunctor3D.h |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..4ab5ed1 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -386,6 +386,15 @@ public:
       slope_unsplit_hydro_2d_scalar(
         q[IC], qPlusX[IC], qMinusX[IC], qPlusY[IC], qMinusY[IC], &(dqX[IC]), &(dqY[IC]));
     }
+    else
+    { // slope_type = 0
+
+      for (int nVar = 0; nVar < MHD_NBVAR; ++nVar)
+      {
+        dqX[nVar] = ZERO_F;
+        dqY[nVar] = ZERO_F;
+      }
+    }
 
   } // slope_unsplit_hydro_2d
 
@@ -429,6 +438,12 @@ public:
       dq[IB] = slope_unsplit_hydro_2d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_2d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    { // slope_type = 0
+
+      for (int nVar = 0; nVar < MHD_NBVAR; ++nVar)
+        dq[nVar] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_2d
 
diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index adfa142..0f8cad5 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -534,6 +534,12 @@ public:
       dq[IB] = slope_unsplit_hydro_3d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_3d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    { // slope_type = 0
+
+      for (int nVar = 0; nVar < MHD_NBVAR; ++nVar)
+        dq[nVar] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_3d
 
-- 
2.43.0


From 057f2c3432ec9fd253f297d46dea8b0f4c6df169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 09/29] fix: apply the gravity predictor to the right state of
 z interfaces in 3D hydro (implementation 1)

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From 936064d096ee599f564aa224f2d1cf76f91d838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 10/29] fix: use the cell size of each direction in the hydro
 MUSCL-Hancock predictor

---
 src/muscl/HydroBaseFunctor2D.h | 40 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 72 +++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..968bd9c 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -245,48 +245,48 @@ public:
     real_t dvy = dqY[IV];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..be971f8 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -314,75 +314,77 @@ public:
     real_t dwz = dqZ[IW];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    // clang-format off
+    real_t sr0 = (-u * drx - dux * r)          * dtdx + (-v * dry - dvy * r)          * dtdy + (-w * drz - dwz * r)          * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy + (-w * dpz - dwz * gamma0 * p) * dtdz;
+    real_t su0 = (-u * dux - dpx / r)          * dtdx + (-v * duy)                    * dtdy + (-w * duz)                    * dtdz;
+    real_t sv0 = (-u * dvx)                    * dtdx + (-v * dvy - dpy / r)          * dtdy + (-w * dvz)                    * dtdz;
+    real_t sw0 = (-u * dwx)                    * dtdx + (-v * dwy)                    * dtdy + (-w * dwz - dpz / r)          * dtdz;
+    // clang-format on
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0


From 909135d9b80bc0360f2f72c9cd92af83fd1db7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 11/29] fix: speed of sound in EulerEquations lacked the square
 root

compute_speed_of_sound returned gamma*p/rho, the square of the speed of
sound, so the time step of the spectral difference solvers was not the
CFL time step.
---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From 3e9bf40f4c015e07c764505780a4a82fc5c820e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 12/29] fix: exact cell averages in the spectral difference
 limiters

The Gauss-Chebyshev rule with the weight function divided out does not
even integrate constants exactly (11 percent off for N=2), so limiting or
positivity preservation changed the mass, momentum and energy of a cell.
Use the interpolatory weights of the solution points instead.
---
 src/sdm/SDM_Geometry.h         | 20 ++++++++
 src/sdm/SDM_Limiter_Functors.h | 85 ++++++++++------------------------
 2 files changed, 44 insertions(+), 61 deletions(-)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..05a23ea 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -108,6 +108,9 @@ public:
   //! location of solution points in reference cell [0,1]^dim, host array
   PointsArray1DHost solution_pts_1d_host;
 
+  //! weights of the interpolatory quadrature on the solution points, for reference cell [0,1]
+  PointsArray1D solution_weights_1d;
+
   //! dim-dimensional array of solution points location (obtained by tensorial product)
   PointsArray solution_pts;
 
@@ -422,6 +425,23 @@ private:
     // copy to device
     Kokkos::deep_copy(solution_pts_1d, solution_pts_1d_host);
 
+    // quadrature weights (Fejer's first rule), exact for polynomials of degree up to N-1
+    solution_weights_1d = PointsArray1D("solution_weights_1d", N);
+    PointsArray1DHost solution_weights_1d_host = Kokkos::create_mirror(solution_weights_1d);
+
+    for (int i = 0; i < N; i++)
+    {
+      const real_t theta = M_PI * (2 * i + 1) / 2 / N;
+
+      real_t sum = 1.0;
+      for (int j = 1; j <= N / 2; ++j)
+        sum -= 2.0 * cos(2 * j * theta) / (4 * j * j - 1);
+
+      solution_weights_1d_host(i) = sum / N;
+    }
+
+    Kokkos::deep_copy(solution_weights_1d, solution_weights_1d_host);
+
     // =================
     // Flux points
     // =================
diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 50fcb30..b0da14b 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -26,7 +26,8 @@ namespace sdm
  * This functor computes the average HydroState in each cell
  * and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the interpolatory quadrature on the Gauss-Chebyshev
+ * solution points, which is exact for the polynomials of degree N-1 used here.
  */
 template <int dim, int N>
 class Average_Conservative_Variables_Functor : public SDMBaseFunctor<dim, N>
@@ -82,27 +83,22 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature on the Gauss-Chebyshev points
 
       // for each DoFs
       for (int idy = 0; idy < N; ++idy)
       {
-        real_t y = this->sdm_geom.solution_pts_1d(idy);
-        real_t wy = sqrt(y - y * y);
+        const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
         for (int idx = 0; idx < N; ++idx)
         {
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           tmp += Udata(i, j, dofMap(idx, idy, 0, ivar)) * wx * wy;
 
         } // for idx
       } // for idy
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, ID) = tmp > smallr ? tmp : smallr;
@@ -140,23 +136,20 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature on the Gauss-Chebyshev points
 
       // for each DoFs
       for (int idz = 0; idz < N; ++idz)
       {
-        real_t z = this->sdm_geom.solution_pts_1d(idz);
-        real_t wz = sqrt(z - z * z);
+        const real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
         for (int idy = 0; idy < N; ++idy)
         {
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           for (int idx = 0; idx < N; ++idx)
           {
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp += Udata(i, j, k, dofMap(idx, idy, idz, ivar)) * wx * wy * wz;
 
@@ -164,9 +157,6 @@ public:
         } // for idy
       } // for idz
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, k, ID) = tmp > smallr ? tmp : smallr;
@@ -393,7 +383,8 @@ public:
  * This functor computes one component of the average HydroState gradient
  * in each cell and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the interpolatory quadrature on the Gauss-Chebyshev
+ * solution points, which is exact for the polynomials of degree N-1 used here.
  *
  * \tparam dir integer to specify direction / component of the gradient
  * dir can IX,IY in 2D or IX,IY,IZ in 3D.
@@ -466,8 +457,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           // read a line
           for (int idx = 0; idx < N; ++idx)
@@ -490,8 +480,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp_average += grad_val * wx * wy;
 
@@ -499,9 +488,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -527,8 +513,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           // read a line
           for (int idy = 0; idy < N; ++idy)
@@ -551,8 +536,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             tmp_average += grad_val * wx * wy;
 
@@ -560,9 +544,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -611,15 +592,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          const real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idx = 0; idx < N; ++idx)
@@ -639,8 +618,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t x = this->sdm_geom.solution_pts_1d(idx);
-              real_t wx = sqrt(x - x * x);
+              const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -649,9 +627,6 @@ public:
           } // end for idy
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -677,15 +652,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          const real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idx = 0; idx < N; ++idx)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             // read a line-vector
             for (int idy = 0; idy < N; ++idy)
@@ -705,8 +678,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t y = this->sdm_geom.solution_pts_1d(idy);
-              real_t wy = sqrt(y - y * y);
+              const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -716,9 +688,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -744,15 +713,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          const real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            const real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idz = 0; idz < N; ++idz)
@@ -772,8 +739,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t z = this->sdm_geom.solution_pts_1d(idz);
-              real_t wz = sqrt(z - z * z);
+              const real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -783,9 +749,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
-- 
2.43.0


From b186e0b16d390dd3895a72e2d2f324b9fe80d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 13/29] fix: viscous terms of the spectral difference solver

The derivative was taken of the velocity gradients instead of the viscous
fluxes, interpolated gradients were divided by another gradient component
(NaN for zero gradients), and the list of components to average at cell
borders was discarded by the functor's constructor.
---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 17 ++++++-----------
 src/sdm/SolverHydroSDM.h                   |  2 +-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index e35f2a0..6a31cbc 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -384,7 +384,7 @@ public:
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , UdataFlux(UdataFlux)
     , nbvar(nbvar)
-    , var_index(){};
+    , var_index(var_index){};
 
   // static method which does it all: create and execute functor
   static void
@@ -1056,8 +1056,7 @@ public:
           {
 
             // divide momentum by density to obtain velocity
-            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1102,8 +1101,7 @@ public:
           for (int idy = 0; idy < N; ++idy)
           {
 
-            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1175,8 +1173,7 @@ public:
             for (int idx = 0; idx < N; ++idx)
             {
 
-              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1225,8 +1222,7 @@ public:
             for (int idy = 0; idy < N; ++idy)
             {
 
-              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1275,8 +1271,7 @@ public:
             for (int idz = 0; idz < N; ++idz)
             {
 
-              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..730f865 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1176,7 +1176,7 @@ SolverHydroSDM<dim, N>::compute_viscous_fluxes_divergence_per_dir(DataArray Udat
   // 5.2 Finally compute derivative and accumulate (with negative sign) in Udata_fdiv
   {
     Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE> functor(
-      params, sdm_geom, FUgrad, Udata_fdiv);
+      params, sdm_geom, Fluxes, Udata_fdiv);
     Kokkos::parallel_for(nbCells, functor);
   }
 
-- 
2.43.0


From 20ef7d5e166230944335602438eb5ec084e6cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 14/29] fix: update ghost cells after limiting in the spectral
 difference solver

Ghost cells are not limited like the cells they image, so the fluxes on
both sides of a periodic boundary differed and conservation was lost.
---
 src/sdm/SolverHydroSDM.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 730f865..4840656 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1245,6 +1245,10 @@ SolverHydroSDM<dim, N>::compute_fluxes_divergence(DataArray Udata, DataArray Uda
 
   apply_positivity_preserving(Udata);
 
+  // cells have been modified, so ghost cells must be updated again
+  if (limiter_enabled or positivity_enabled)
+    make_boundaries(Udata);
+
   compute_invicid_fluxes_divergence_per_dir<IX>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IY>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IZ>(Udata, Udata_fdiv, dt);
-- 
2.43.0


From 426b48574373b19463d21be32fd13fea65a0f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 15/29] fix: initialise FUgrad in the viscous flux functor of
 the spectral difference solver

---
 src/sdm/SDM_Viscous_Flux_Functors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sdm/SDM_Viscous_Flux_Functors.h b/src/sdm/SDM_Viscous_Flux_Functors.h
index 0b73d61..a59fd10 100644
--- a/src/sdm/SDM_Viscous_Flux_Functors.h
+++ b/src/sdm/SDM_Viscous_Flux_Functors.h
@@ -84,6 +84,7 @@ public:
                                          DataArray                   UdataFlux)
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , euler(euler)
+    , FUgrad(FUgrad)
     , UdataFlux(UdataFlux){};
 
   // ================================================
-- 
2.43.0


From f30bbcc13cb82dafb1d2132b0e83016bb31a14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 16/29] fix: spectral difference limiter computed the speed of
 sound from conservative variables

---
 src/sdm/SDM_Limiter_Functors.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index b0da14b..49cbc0c 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -894,8 +894,10 @@ public:
       Uave[ivar] = Uaverage(i, j, ivar);
     }
 
-    // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    // speed of sound from cell-averaged values (primitive variables)
+    HydroState Wave = {};
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
@@ -1031,8 +1033,10 @@ public:
       Uave[ivar] = Uaverage(i, j, k, ivar);
     }
 
-    // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    // speed of sound from cell-averaged values (primitive variables)
+    HydroState Wave = {};
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
-- 
2.43.0


From d15104163e39f6facff28a6dce3c2f4938b4fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 17/29] fix: an indented comment line in a parameter file does
 not replace the value above it

---
 src/utils/config/inih/ini.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 9f44c48..3f2ec5b 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -100,20 +100,19 @@ ini_parse(const char * filename,
     lineno++;
     start = lskip(rstrip(line));
 
+    if (*start == ';' || *start == '#')
+    {
+      /* Per Python ConfigParser, allow '#' comments at start of line */
+    }
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    else if (*prev_name && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-    else
 #endif
-      if (*start == ';' || *start == '#')
-    {
-      /* Per Python ConfigParser, allow '#' comments at start of line */
-    }
     else if (*start == '[')
     {
       /* A "[section]" line */
@@ -201,20 +200,19 @@ ini_parse_buffer(char *& buffer,
 
     start = lskip(rstrip(line));
 
+    if (*start == ';' || *start == '#')
+    {
+      /* Per Python ConfigParser, allow '#' comments at start of line */
+    }
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    else if (*prev_name && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-    else
 #endif
-      if (*start == ';' || *start == '#')
-    {
-      /* Per Python ConfigParser, allow '#' comments at start of line */
-    }
     else if (*start == '[')
     {
       /* A "[section]" line */
-- 
2.43.0


From 49699fab6f0fc6019d2c232af19dc06453957955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 18/29] fix: a comment right after '=' in a parameter file is
 not the value

---
 src/utils/config/inih/ini.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 3f2ec5b..4ea5780 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -137,11 +137,11 @@ ini_parse(const char * filename,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         strncpy0(prev_name, name, sizeof(prev_name));
@@ -237,11 +237,11 @@ ini_parse_buffer(char *& buffer,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         strncpy0(prev_name, name, sizeof(prev_name));
-- 
2.43.0


From 6397a145b3180d27362f1e76f384423556d9411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 19/29] fix: a comment ending a continuation line of a
 parameter file is not part of the value

---
 src/utils/config/inih/ini.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 4ea5780..10b4acd 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -109,6 +109,10 @@ ini_parse(const char * filename,
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
@@ -209,6 +213,10 @@ ini_parse_buffer(char *& buffer,
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-- 
2.43.0


From 9beb6ffbd8415e3983455a2d101e919e9be5d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:47 +0000
Subject: [PATCH 20/29] fix: problems with a gravity field write it only when
 it is allocated

The rayleigh_taylor, rising_bubble and disk problems filled the gravity
field unconditionally, but the solver allocates it only when gravity is
enabled: without gravity they wrote through an unallocated array.
---
 src/muscl/HydroInitFunctors2D.h | 24 ++++++++++++++++++------
 src/muscl/HydroInitFunctors3D.h | 30 +++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..3005a49 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -775,8 +775,12 @@ public:
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    // the gravity field is only allocated when gravity is enabled
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -890,8 +894,12 @@ public:
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    // the gravity field is only allocated when gravity is enabled
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -981,8 +989,12 @@ public:
     {
       real_t gx, gy, gz;
       grav.eval(x, y, 0, gx, gy, gz);
-      gravity(i, j, IX) = gx;
-      gravity(i, j, IY) = gy;
+      // the gravity field is only allocated when gravity is enabled
+      if (gravity.is_allocated())
+      {
+        gravity(i, j, IX) = gx;
+        gravity(i, j, IY) = gy;
+      }
     }
 
     {
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..0fe4417 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -664,9 +664,13 @@ public:
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
 
     // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    // the gravity field is only allocated when gravity is enabled
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -789,9 +793,13 @@ public:
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    // the gravity field is only allocated when gravity is enabled
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -887,9 +895,13 @@ public:
     {
       real_t gx, gy, gz;
       grav.eval(x, y, z, gx, gy, gz);
-      gravity(i, j, k, IX) = gx;
-      gravity(i, j, k, IY) = gy;
-      gravity(i, j, k, IZ) = gz;
+      // the gravity field is only allocated when gravity is enabled
+      if (gravity.is_allocated())
+      {
+        gravity(i, j, k, IX) = gx;
+        gravity(i, j, k, IY) = gy;
+        gravity(i, j, k, IZ) = gz;
+      }
     }
 
     {
-- 
2.43.0


From d4c6487e9bc495ef32ebc1ff60ed5155645cdebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:21 +0000
Subject: [PATCH 21/29] fix: the implosion problem stored velocities as momenta

The energy is computed for momenta rho*v; with a velocity and a density
other than one the pressure came out wrong, possibly negative.
---
 src/muscl/HydroInitFunctors2D.h |  8 ++++----
 src/muscl/HydroInitFunctors3D.h | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h   |  8 ++++----
 src/muscl/MHDInitFunctors3D.h   | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 3005a49..842d00e 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 0fe4417..1ef4c7f 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..b45462c 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..01fdcf0 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
-- 
2.43.0


From 5bfde884684877223c93edd87a44f46c5d7a23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:21 +0000
Subject: [PATCH 22/29] fix: the 3D Gresho vortex has no velocity along its
 axis

The azimuthal velocity was also stored as the z component.
---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 1ef4c7f..0b4e59e 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From 2a969df284073b387e6f3351f8c0c92a341b70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:21 +0000
Subject: [PATCH 23/29] fix: the 2D field loop energy includes the kinetic
 energy of the z velocity

---
 src/muscl/MHDInitFunctors2D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index b45462c..7480c87 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -927,7 +927,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
-- 
2.43.0


From b2aa7a2e6e5eb977b8e9993585b70270d39c1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:21 +0000
Subject: [PATCH 24/29] fix: the disk energy used a negative kinetic energy
 where pressure support exceeds gravity

The rotation rate is clipped to zero there, the energy was not: the pressure
came out too small or negative.
---
 src/muscl/HydroInitFunctors2D.h | 2 +-
 src/muscl/HydroInitFunctors3D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 842d00e..e449454 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1057,7 +1057,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 0b4e59e..f8c7ed3 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -965,7 +965,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
-- 
2.43.0


From c18bb527bbc60a6427c06669bd9a305be134a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:05 +0000
Subject: [PATCH 25/29] fix: the disk problem divided by zero in a cell centred
 on the axis

---
 src/muscl/HydroInitFunctors2D.h | 8 +++++---
 src/muscl/HydroInitFunctors3D.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index e449454..3a2d677 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1006,8 +1006,9 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      // (the direction is not defined on the axis itself, the gas is at rest there)
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -1057,7 +1058,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) +
+                        0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index f8c7ed3..f1b827e 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -913,8 +913,9 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      // (the direction is not defined on the axis itself, the gas is at rest there)
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -965,7 +966,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) +
+                        0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
-- 
2.43.0


From aa6eb38a3cc45823208abb8942bc6966f5d0ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:05 +0000
Subject: [PATCH 26/29] fix: the Rayleigh-Taylor energy includes the kinetic
 energy of the perturbation

---
 src/muscl/HydroInitFunctors2D.h | 3 ++-
 src/muscl/HydroInitFunctors3D.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 3a2d677..4faed0c 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -772,7 +772,8 @@ public:
     // initial hydrostatic equilibrium :
     // -dP/dz + rho*g = 0
     // P = P0 + rho g z
-    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
+    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0) +
+                      0.5 * Udata(i, j, IV) * Udata(i, j, IV) / Udata(i, j, ID);
 
     // init gravity field
     // the gravity field is only allocated when gravity is enabled
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index f1b827e..bb2df7d 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -661,7 +661,8 @@ public:
       amplitude * (1 + cos(2 * M_PI * x / Lx)) * (1 + cos(2 * M_PI * y / Ly)) / 4;
 
     Udata(i, j, k, IE) =
-      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
+      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1) +
+      0.5 * Udata(i, j, k, IW) * Udata(i, j, k, IW) / Udata(i, j, k, ID);
 
     // init gravity field
     // the gravity field is only allocated when gravity is enabled
-- 
2.43.0


From 7394a8c18ebed8b5d3310561288e483c714aea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:05 +0000
Subject: [PATCH 27/29] fix: the inner disc of the 2D MHD rotor rotates rigidly

The taper factor, larger than one inside r0, was applied there as well; the
cited reference and the 3D version use it only between r0 and r1.
---
 src/muscl/MHDInitFunctors2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 7480c87..6a3c8a5 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -652,8 +652,8 @@ public:
     if (r <= r0)
     {
       Udata(i, j, ID) = 10.0;
-      Udata(i, j, IU) = -Udata(i, j, ID) * f_r * u0 * (y - yCenter) / r0;
-      Udata(i, j, IV) = Udata(i, j, ID) * f_r * u0 * (x - xCenter) / r0;
+      Udata(i, j, IU) = -Udata(i, j, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, IV) = Udata(i, j, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
-- 
2.43.0


From aa55936ecebe1634ed250ed3e0bdd37f232f4a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:05 +0000
Subject: [PATCH 28/29] fix: the 3D MHD rotor stored velocities as momenta

---
 src/muscl/MHDInitFunctors3D.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 01fdcf0..05a83c0 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -696,14 +696,14 @@ public:
     if (r <= r0)
     {
       Udata(i, j, k, ID) = 10.0;
-      Udata(i, j, k, IU) = -u0 * (y - yCenter) / r0;
-      Udata(i, j, k, IV) = u0 * (x - xCenter) / r0;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
       Udata(i, j, k, ID) = 1 + 9 * f_r;
-      Udata(i, j, k, IU) = -f_r * u0 * (y - yCenter) / r;
-      Udata(i, j, k, IV) = f_r * u0 * (x - xCenter) / r;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * f_r * u0 * (y - yCenter) / r;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * f_r * u0 * (x - xCenter) / r;
     }
     else
     {
-- 
2.43.0


From ba1a058770151be80b4f120d431a437dcee0035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:05 +0000
Subject: [PATCH 29/29] fix: the hydro Kelvin-Helmholtz problem supports the
 sinus perturbation

Only the MHD versions did: with perturbation_sine alone the hydro state was
left at zero density.
---
 src/muscl/HydroInitFunctors2D.h | 17 +++++++++++++++++
 src/muscl/HydroInitFunctors3D.h | 19 +++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 4faed0c..03a8734 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -334,6 +334,23 @@ public:
       Udata(i, j, IV) = d * v;
       Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double y1 = 0.25;
+      const double y2 = 0.75;
+
+      const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+      const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+      const real_t v = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, ID) = d;
+      Udata(i, j, IU) = d * u;
+      Udata(i, j, IV) = d * v;
+      Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+    }
 
   } // end operator ()
 
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index bb2df7d..76a391f 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -411,6 +411,25 @@ public:
       Udata(i, j, k, IW) = d * w;
       Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double z1 = 0.25;
+      const double z2 = 0.75;
+
+      const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+      const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+      const real_t v = 0;
+      const real_t w = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, k, ID) = d;
+      Udata(i, j, k, IU) = d * u;
+      Udata(i, j, k, IV) = d * v;
+      Udata(i, j, k, IW) = d * w;
+      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+    }
 
   } // end operator ()
 
-- 
2.43.0

