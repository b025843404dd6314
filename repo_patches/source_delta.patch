From 163f2ff8cff7f5609cabe0693ca5a526c15be4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 01/43] fix: transposed land mask in 2D
 linear_invdist_land_tracer (Scipy)

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..558861f 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -913,7 +913,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
-- 
2.43.0


From 70d24a72c2a285a776f3feb87f81ea89431bc27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 02/43] fix: transposed node indices in 3D
 linear_invdist_land_tracer on a grid node (Scipy)

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 558861f..905a247 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -962,7 +962,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
-- 
2.43.0


From e93d00001cb2a2a84ee9514bc1722be5c17f0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 03/43] fix: do not wrap around to the deepest level in the
 MOM5 surface cell (Scipy)

---
 parcels/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 905a247..c9fe1f2 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -932,6 +932,10 @@ class Field(object):
 
     def interpolator3D(self, ti, z, y, x, time, particle=None):
         (xsi, eta, zeta, xi, yi, zi) = self.search_indices(x, y, z, ti, time, particle=particle)
+        surface = self.gridindexingtype == 'mom5' and zi == -1
+        if surface and self.interp_method not in ['linear', 'bgrid_velocity', 'bgrid_w_velocity']:
+            # MOM5 is indexed at cell bottom, so there is no level above the uppermost cell
+            zi, zeta = 0, 0.
         if self.interp_method == 'nearest':
             xii = xi if xsi <= .5 else xi+1
             yii = yi if eta <= .5 else yi+1
@@ -1001,7 +1005,7 @@ class Field(object):
                 xsi*(1-eta) * data[yi, xi+1] + \
                 xsi*eta * data[yi+1, xi+1] + \
                 (1-xsi)*eta * data[yi+1, xi]
-            if self.interp_method == 'bgrid_w_velocity' and self.gridindexingtype == 'mom5' and zi == -1:
+            if surface:
                 # Since MOM5 is indexed at cell bottom, allow linear interpolation of W to zero in uppermost cell
                 return zeta * f1
             else:
-- 
2.43.0


From c6c46e50838f9483429b552fe228446b9a4b3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 04/43] fix: sample the uppermost level in the MOM5 surface
 cell for nearest and invdist (JIT)

---
 parcels/include/parcels.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..2c8192a 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -524,6 +524,12 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
     }
   }
 
+  if ((gridindexingtype == MOM5) && (zi[igrid] == -1) &&
+      ((interp_method == NEAREST) || (interp_method == LINEAR_INVDIST_LAND_TRACER))) {
+    // MOM5 is indexed at cell bottom, so there is no level above the uppermost cell
+    zeta = 0;
+  }
+
   // define a helper macro that will select the appropriate interpolation method
   // depending on whether we need 2D or 3D
 #define INTERP(fn_2d, fn_3d)                                            \
-- 
2.43.0


From 611e7a913d4dcacaf25dcf85a07a784028dea6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 05/43] fix: linear_invdist_land_tracer is zero on a land node
 next to a single water node (JIT)

---
 parcels/include/parcels.h | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 2c8192a..1b93a3e 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -76,7 +76,7 @@ static inline StatusCode spatial_interpolation_bilinear(double xsi, double eta,
 /* Bilinear interpolation routine for 2D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi, double eta, float data[2][2], float *value)
 {
-  int i, j, k, l, nb_land = 0, land[2][2] = {{0}};
+  int i, j, nb_land = 0, land[2][2] = {{0}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -85,27 +85,18 @@ static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi,
 	    land[i][j] = 1;
 	    nb_land++;
       }
-      else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-	    k = i;
-	    l = j;
-      }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_bilinear(xsi, eta, data, value);
-  case 3:  // single non-land point
-    *value = data[k][l];
-    return SUCCESS;
   case 4:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 or 2 land points
+  // interpolate with 1 to 3 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
@@ -175,7 +166,7 @@ static inline StatusCode spatial_interpolation_trilinear_bottom(double xsi, doub
 /* Trilinear interpolation routine for 3D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi, double eta, double zeta, float data[2][2][2], float *value)
 {
-  int i, j, k, l, m, n, nb_land = 0, land[2][2][2] = {{{0}}};
+  int i, j, k, nb_land = 0, land[2][2][2] = {{{0}}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -185,29 +176,19 @@ static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi
 	      land[i][j][k] = 1;
 	      nb_land++;
         }
-        else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-          l = i;
-          m = j;
-          n = k;
-        }
       }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_trilinear(xsi, eta, zeta, data, value);
-  case 7:  // single non-land point
-    *value = data[l][m][n];
-    return SUCCESS;
   case 8:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 to 6 land points
+  // interpolate with 1 to 7 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
-- 
2.43.0


From 1d640080ec5b322d7b6ac6b88e0a22a78bfd7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:32 +0000
Subject: [PATCH 06/43] fix: out-of-bounds depth read when leaving the MOM5
 surface cell (JIT)

---
 parcels/include/index_search.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..8b15dc7 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -66,6 +66,7 @@ static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float
     }
     if (z < zvals[0]) {return ERROR_THROUGH_SURFACE;}
     if (z > zvals[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
+    if (*zi < 0) *zi = 0;  // coming from the MOM5 surface cell
     while (*zi < zdim-1 && z > zvals[*zi+1]) ++(*zi);
     while (*zi > 0 && z < zvals[*zi]) --(*zi);
   }
-- 
2.43.0


From 1fc963e8bb5e69f515370bb7ade8b4490501f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:32 +0000
Subject: [PATCH 07/43] fix: sampling beyond the halo of a flat zonally
 periodic grid is out of bounds

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index c9fe1f2..224e35e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -701,7 +701,7 @@ class Field(object):
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
         grid = self.grid
 
-        if grid.xdim > 1 and (not grid.zonal_periodic):
+        if grid.xdim > 1 and (not grid.zonal_periodic or grid.mesh == 'flat'):
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
         if grid.ydim > 1 and (y < grid.lonlat_minmax[2] or y > grid.lonlat_minmax[3]):
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 8b15dc7..63049eb 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -183,7 +183,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   int zonal_periodic = grid->zonal_periodic;
   int z4d = grid->z4d;
 
-  if (zonal_periodic == 0){
+  if ((zonal_periodic == 0) || (sphere_mesh == 0)){
     if ((xdim > 1) && ((x < xy_minmax[0]) || (x > xy_minmax[1])))
       return ERROR_OUT_OF_BOUNDS;
   }
-- 
2.43.0


From 04783925055a543d409a1effbbb8d83315be01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:32 +0000
Subject: [PATCH 08/43] fix: sampling east of the last longitude of a zonally
 periodic spherical grid (Scipy)

---
 parcels/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 224e35e..20ff05d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -728,6 +728,8 @@ class Field(object):
                     lon_fixed[indices.argmin():] += 360
                 if x < lon_fixed[0]:
                     lon_fixed -= 360
+                elif x > lon_fixed[-1]:
+                    lon_fixed += 360
 
                 lon_index = lon_fixed < x
                 if lon_index.all():
-- 
2.43.0


From 3d3c7b0043f86f45f8c5d427daf12e3c91dc782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:14 +0000
Subject: [PATCH 09/43] fix: interpolate between the last and the first
 snapshot of in-memory time-periodic fields

---
 parcels/field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 20ff05d..559ac1f 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -172,6 +172,7 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                self.grid.tdim = self.grid.time.size
 
         self._scaling_factor = None
 
@@ -517,10 +518,14 @@ class Field(object):
         if self.grid.zdim == 1:
             if len(data.shape) == 4:
                 data = data.reshape(sum(((data.shape[0],), data.shape[2:]), ()))
+        # in non-deferred mode, the extra time step of periodic data is only added after reshaping
+        tdim = self.grid.tdim
+        if self.grid._add_last_periodic_data_timestep and not self.grid.defer_load:
+            tdim = self.grid.time.size - 1
         if len(data.shape) == 4:
             errormessage = ('Field %s expecting a data shape of [tdim, zdim, ydim, xdim]. '
                             'Flag transpose=True could help to reorder the data.' % self.name)
-            assert data.shape[0] == self.grid.tdim, errormessage
+            assert data.shape[0] == tdim, errormessage
             assert data.shape[2] == self.grid.ydim - 2 * self.grid.meridional_halo, errormessage
             assert data.shape[3] == self.grid.xdim - 2 * self.grid.zonal_halo, errormessage
             if self.gridindexingtype == 'pop':
@@ -528,7 +533,7 @@ class Field(object):
             else:
                 assert data.shape[1] == self.grid.zdim, errormessage
         else:
-            assert (data.shape == (self.grid.tdim,
+            assert (data.shape == (tdim,
                                    self.grid.ydim - 2 * self.grid.meridional_halo,
                                    self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
-- 
2.43.0


From 4b340df6c9faa80d33bb5da295ee1586b91a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:55 +0000
Subject: [PATCH 10/43] fix: do not wrap cell corners by 360 on flat meshes in
 C-grid interpolation (JIT)

---
 parcels/include/parcels.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 1b93a3e..6d2e341 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -616,9 +616,11 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
     }
   }
   int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
 
@@ -780,9 +782,11 @@ static inline StatusCode spatial_interpolation_UVW_c_grid(double xsi, double eta
     }
   }
   int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
   float u0 = dataU[0][1][0];
-- 
2.43.0


From ce88d7268638a90ec405bd570ff970c57ae3be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 11/43] fix: out-of-bounds velocity read in the first row and
 column of MITgcm C-grids (JIT)

---
 parcels/include/parcels.h | 77 +++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 6d2e341..4713dd2 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -591,11 +591,26 @@ static double dist(double lon1, double lon2, double lat1, double lat2, int spher
 
 /* Linear interpolation routine for 2D C grid */
 static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta, int xi, int yi, CStructuredGrid *grid,
-                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v)
+                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v, int gridindexingtype)
 {
   /* Cast data array into data[lat][lon] as per NEMO convention */
   int xdim = grid->xdim;
 
+  /* Velocities on the faces of the cell */
+  float u0, u1, v0, v1;
+  if (gridindexingtype == MITGCM){
+    u0 = dataU[0][0];
+    u1 = dataU[0][1];
+    v0 = dataV[0][0];
+    v1 = dataV[1][0];
+  }
+  else{
+    u0 = dataU[1][0];
+    u1 = dataU[1][1];
+    v0 = dataV[0][1];
+    v1 = dataV[1][1];
+  }
+
   double xgrid_loc[4];
   double ygrid_loc[4];
   int iN;
@@ -626,13 +641,13 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
 
   double phi[4];
   phi2D_lin(0., eta, phi);
-  double U0 = dataU[1][0] * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U0 = u0 * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(1., eta, phi);
-  double U1 = dataU[1][1] * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U1 = u1 * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 0., phi);
-  double V0 = dataV[0][1] * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V0 = v0 * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 1., phi);
-  double V1 = dataV[1][1] * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V1 = v1 * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   double U = (1-xsi) * U0 + xsi * U1;
   double V = (1-eta) * V0 + eta * V1;
 
@@ -695,29 +710,17 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], time, t0, t1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
 
     } else {
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
     }
     *u = u0 + (u1 - u0) * (float)((time - t0) / (t1 - t0));
     *v = v0 + (v1 - v0) * (float)((time - t0) / (t1 - t0));
@@ -727,27 +730,15 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], t0, t0, t0+1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     else{
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM){
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     return SUCCESS;
   }
-- 
2.43.0


From c6187496b26f6f8829995a209f86ad5ed8bfb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 12/43] fix: use the depth levels of the sampled snapshot in 3D
 C-grid interpolation (Scipy)

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 559ac1f..00455fe 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1535,8 +1535,8 @@ class VectorField(object):
         px = np.concatenate((px, px))
         py = np.concatenate((py, py))
         if grid.z4d:
-            pz = np.array([grid.depth[0, zi, yi, xi], grid.depth[0, zi, yi, xi+1], grid.depth[0, zi, yi+1, xi+1], grid.depth[0, zi, yi+1, xi],
-                           grid.depth[0, zi+1, yi, xi], grid.depth[0, zi+1, yi, xi+1], grid.depth[0, zi+1, yi+1, xi+1], grid.depth[0, zi+1, yi+1, xi]])
+            pz = np.array([grid.depth[ti, zi, yi, xi], grid.depth[ti, zi, yi, xi+1], grid.depth[ti, zi, yi+1, xi+1], grid.depth[ti, zi, yi+1, xi],
+                           grid.depth[ti, zi+1, yi, xi], grid.depth[ti, zi+1, yi, xi+1], grid.depth[ti, zi+1, yi+1, xi+1], grid.depth[ti, zi+1, yi+1, xi]])
         else:
             pz = np.array([grid.depth[zi, yi, xi], grid.depth[zi, yi, xi+1], grid.depth[zi, yi+1, xi+1], grid.depth[zi, yi+1, xi],
                            grid.depth[zi+1, yi, xi], grid.depth[zi+1, yi, xi+1], grid.depth[zi+1, yi+1, xi+1], grid.depth[zi+1, yi+1, xi]])
-- 
2.43.0


From 124fc1d3086a01ffda63113b8191610b82ddd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:08 +0000
Subject: [PATCH 13/43] fix: Kernel.execute no longer alters the recovery
 dictionary of the caller

---
 parcels/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..4745079 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -404,6 +404,7 @@ class Kernel(object):
         if recovery is None:
             recovery = {}
         elif ErrorCode.ErrorOutOfBounds in recovery and ErrorCode.ErrorThroughSurface not in recovery:
+            recovery = dict(recovery)  # do not alter the dictionary of the caller
             recovery[ErrorCode.ErrorThroughSurface] = recovery[ErrorCode.ErrorOutOfBounds]
         recovery_map = recovery_base_map.copy()
         recovery_map.update(recovery)
-- 
2.43.0


From 41290a5366c10378e69174f657e30f6b006166e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:08 +0000
Subject: [PATCH 14/43] fix: JIT update_next_dt of a failed or repeated kernel
 call no longer leaks to the next particle

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..564ae84 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1049,6 +1049,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.Assign("_next_dt_set", "0"),
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
-- 
2.43.0


From 85a41fb7be18a2947299b2d1f6eb64406a6935dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 15/43] fix: keep the grouping of boolean operators and
 comparisons in JIT kernels

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 564ae84..f8596b9 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -628,8 +628,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -706,7 +706,7 @@ class KernelGenerator(ast.NodeVisitor):
         for v in node.values:
             self.visit(v)
         op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        node.ccode = "(%s)" % op_str.join([v.ccode for v in node.values])
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From 9ee11ab786fb41552b6d4b87d355d25c7fa4711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 16/43] fix: evaluate fields in the test of an if-statement
 right before that statement in JIT kernels

---
 parcels/compilation/codegenerator.py | 33 ++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index f8596b9..1406e39 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -333,6 +333,30 @@ class IntrinsicTransformer(ast.NodeTransformer):
         else:
             return node
 
+    def _pop_stmt_stack(self):
+        """Empty the stack and return the statements that were on it"""
+        stmts = self.stmt_stack
+        self.stmt_stack = []
+        return stmts
+
+    def _visit_block(self, block):
+        """Visit a list of statements"""
+        stmts = []
+        for stmt in block:
+            res = self.visit(stmt)
+            stmts += res if isinstance(res, list) else [res]
+            # evaluations that were not consumed by the statement itself
+            stmts[-1:-1] = self._pop_stmt_stack()
+        return stmts
+
+    def visit_If(self, node):
+        node.test = self.visit(node.test)
+        # The field evaluations of the test need to be done before the if-statement
+        stmts = self._pop_stmt_stack()
+        node.body = self._visit_block(node.body)
+        node.orelse = self._visit_block(node.orelse)
+        return stmts + [node]
+
     def visit_AugAssign(self, node):
         node.target = self.visit(node.target)
         node.op = self.visit(node.op)
@@ -613,14 +637,9 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
-        ifcode = c.If(node.test.ccode, body, orelse)
-        node.ccode = c.Block([body0, ifcode])
+        node.ccode = c.If(node.test.ccode, body, orelse)
 
     def visit_Compare(self, node):
         self.visit(node.left)
-- 
2.43.0


From 478a0da8e3559fd6fd58072d6945a5eb3a7a4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 17/43] fix: check the condition of a while-loop before its
 first iteration in JIT kernels

---
 parcels/compilation/codegenerator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 1406e39..2564727 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -357,6 +357,17 @@ class IntrinsicTransformer(ast.NodeTransformer):
         node.orelse = self._visit_block(node.orelse)
         return stmts + [node]
 
+    def visit_While(self, node):
+        node.test = self.visit(node.test)
+        stmts = self._pop_stmt_stack()
+        node.body = self._visit_block(node.body)
+        if len(stmts) > 0:
+            # The field evaluations of the test need to be done in every iteration
+            stop = ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])
+            node.test = ast.Name(id='True')
+            node.body = stmts + [stop] + node.body
+        return node
+
     def visit_AugAssign(self, node):
         node.target = self.visit(node.target)
         node.op = self.visit(node.op)
@@ -761,7 +772,7 @@ class KernelGenerator(ast.NodeVisitor):
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
         body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        node.ccode = c.While(node.test.ccode, body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From b15b205b4cde132406dceb72f789e4e267a22a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 18/43] fix: division of integers is a true division in JIT
 kernels

---
 parcels/compilation/codegenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 2564727..17ab0b4 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -700,6 +700,8 @@ class KernelGenerator(ast.NodeVisitor):
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
         elif node.op.ccode == 'pow':  # catching '**' pow statements
             node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Div):  # also a division of integers is a true division
+            node.ccode = "((double)%s / %s)" % (node.left.ccode, node.right.ccode)
         else:
             node.ccode = "(%s %s %s)" % (node.left.ccode, node.op.ccode, node.right.ccode)
         node.s_print = True
-- 
2.43.0


From 0d5f6502e1c84c2a4f865bae053143ab4f84721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 19/43] fix: abs() does not truncate floating-point values in
 JIT kernels

---
 parcels/compilation/codegenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 17ab0b4..a9b9846 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -259,6 +259,8 @@ class IntrinsicTransformer(ast.NodeTransformer):
             node = RandomNode(math, ccode='')
         elif node.id == 'print':
             node = PrintNode()
+        elif node.id == 'abs':
+            node = MathNode(math, ccode='').fabs
         elif (node.id == 'pnum') or ('parcels_tmpvar' in node.id):
             raise NotImplementedError("Custom Kernels cannot contain string %s; please change your kernel" % node.id)
         return node
-- 
2.43.0


From d63bf98f04a76814324e73c57844189042ca9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 20/43] fix: arrays of one JIT kernel no longer affect
 variables of the same name in other kernels

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index a9b9846..d481098 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -454,6 +454,7 @@ class KernelGenerator(ast.NodeVisitor):
         self.field_args = collections.OrderedDict()
         self.vector_field_args = collections.OrderedDict()
         self.const_args = collections.OrderedDict()
+        self.array_vars = []
 
     def generate(self, py_ast, funcvars):
         # Replace occurences of intrinsic objects in Python AST
-- 
2.43.0


From e3844a08f0015cfbf5ac86b87cccfe3f44c212be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 21/43] fix: modulo of negative and floating-point values in
 JIT kernels

---
 parcels/compilation/codegenerator.py | 2 ++
 parcels/include/parcels.h            | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index d481098..5d6922a 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -703,6 +703,8 @@ class KernelGenerator(ast.NodeVisitor):
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
         elif node.op.ccode == 'pow':  # catching '**' pow statements
             node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif node.op.ccode == '%':  # the sign of the result is that of the divisor
+            node.ccode = "parcels_modulo(%s, %s)" % (node.left.ccode, node.right.ccode)
         elif isinstance(node.op, ast.Div):  # also a division of integers is a true division
             node.ccode = "((double)%s / %s)" % (node.left.ccode, node.right.ccode)
         else:
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 4713dd2..6f010fb 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -15,6 +15,13 @@ extern "C" {
 
 #define min(X, Y) (((X) < (Y)) ? (X) : (Y))
 #define max(X, Y) (((X) > (Y)) ? (X) : (Y))
+
+/* Modulo as in Python: for floating-point values, and with the sign of the divisor */
+static inline double parcels_modulo(double a, double b)
+{
+  double r = fmod(a, b);
+  return (r != 0 && ((r < 0) != (b < 0))) ? r + b : r;
+}
 #define rtol 1.e-5
 #define atol 1.e-8
 
-- 
2.43.0


From 7ef45eae05b934146de25fea2ee2a871d7f172ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 22/43] fix: the sum of a SummedField is one operand of an
 expression in JIT kernels

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 5d6922a..4c53df3 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -290,7 +290,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -299,9 +299,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
-- 
2.43.0


From a91b831198caa12cacaf8499d3dda38102cf7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 23/43] fix: evaluate all values of a tuple assignment before
 assigning them in JIT kernels

---
 parcels/compilation/codegenerator.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 4c53df3..86fb950 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -425,6 +425,9 @@ class TupleSplitter(ast.NodeTransformer):
     """AST transformer that detects and splits Pythonic tuple
     assignments into multiple statements for conversion to C."""
 
+    def __init__(self):
+        self.tmp_vars = []
+
     def visit_Assign(self, node):
         if isinstance(node.targets[0], ast.Tuple) \
            and isinstance(node.value, ast.Tuple):
@@ -432,10 +435,19 @@ class TupleSplitter(ast.NodeTransformer):
             v_elts = node.value.elts
             if len(t_elts) != len(v_elts):
                 raise AttributeError("Tuple lenghts in assignment do not agree")
+            # All values need to be evaluated before the first variable changes
+            tmp_stmts = []
+            for i, v in enumerate(v_elts):
+                if not (isinstance(v, ast.Name) and 'parcels_tmpvar' in v.id):
+                    tmp = "parcels_tmpvar_tuple%d" % len(self.tmp_vars)
+                    self.tmp_vars += [tmp]
+                    tmp_stmts += [ast.Assign([ast.Name(id=tmp)], v)]
+                    v_elts[i] = ast.Name(id=tmp)
             node = [ast.Assign() for _ in t_elts]
             for n, t, v in zip(node, t_elts, v_elts):
                 n.targets = [t]
                 n.value = v
+            node = tmp_stmts + node
         return node
 
 
@@ -462,7 +474,8 @@ class KernelGenerator(ast.NodeVisitor):
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
-        py_ast = TupleSplitter().visit(py_ast)
+        splitter = TupleSplitter()
+        py_ast = splitter.visit(py_ast)
 
         # Generate C-code for all nodes in the Python AST
         self.visit(py_ast)
@@ -489,6 +502,8 @@ class KernelGenerator(ast.NodeVisitor):
             self.ccode.body.insert(0, c.Value("type_coord", ", ".join(funcvars)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
+        if len(splitter.tmp_vars) > 0:
+            self.ccode.body.insert(0, c.Value("double", ", ".join(splitter.tmp_vars)))
 
         return self.ccode
 
-- 
2.43.0


From 39abb1eba20c2ff29e75234cc0cddad24b73e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 24/43] fix: raise the errors of all fields of a
 SummedVectorField in JIT kernels

---
 parcels/compilation/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 86fb950..d1257ff 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -902,8 +902,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
-- 
2.43.0


From 3970115f90188b64e663f6ec6783f1ffed4cd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 25/43] fix: look up several particle IDs in a sorted
 collection

---
 parcels/particlesets/collectionsoa.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..51375f5 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,20 +369,12 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.intp)
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
-
-        # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
-        elif self._data['id'][index] != sublist[median]:
+        index = bisect_left(self._data['id'], sublist[median], low, high)
+
+        if index == high or self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
             # index and keep it in our search space.
@@ -394,7 +386,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index]), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From c73045fd0ea07355375feded84806ab4be7a79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 26/43] fix: count the particles correctly when indices to
 remove are repeated

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 51375f5..76318fc 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -636,7 +636,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['lon'].shape[0]
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From b1478395a778a86152f1b3eb3f0bdf356418fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 27/43] fix: adding particles to an empty collection copies
 their data and order

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 76318fc..e3df49b 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -416,8 +416,9 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
             self._ncount = same_class.ncount
+            self._sorted = same_class._sorted
             return
 
         # Determine order of concatenation and update the sorted flag
-- 
2.43.0


From 56c2e5f7c72565dfcd7f6813f64470c53bf6e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 28/43] fix: an empty ParticleSet does not restart the particle
 IDs

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index e3df49b..2b8c45d 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -95,7 +95,7 @@ class ParticleCollectionSOA(ParticleCollection):
             assert lon.size == kwargs[kwvar].size, (
                 '%s and positions (lon, lat, depth) don''t have the same lengths.' % kwvar)
 
-        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else -1
+        offset = np.max(pid) if (pid is not None) and len(pid) > 0 else pclass.lastID - 1
         if MPI:
             mpi_comm = MPI.COMM_WORLD
             mpi_rank = mpi_comm.Get_rank()
-- 
2.43.0


From 68a705f388cb761c7387e182284cd4c3a2559cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 29/43] fix: reverse iteration over a subset of the particles

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 2b8c45d..2b6452f 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -971,7 +971,7 @@ class ParticleCollectionIteratorSOA(BaseParticleCollectionIterator):
                                 " particleset requires a list or numpy array"
                                 " of indices (of type int or np.int32).")
             if reverse:
-                self._indices = subset.reverse()
+                self._indices = subset[::-1]
             else:
                 self._indices = subset
             self.max_len = len(subset)
-- 
2.43.0


From ee78d28f54fdaa873edb932b811eab282286ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:08 +0000
Subject: [PATCH 30/43] fix: initialise Variables after the Variables that they
 take their initial value from

---
 parcels/particlesets/collectionsoa.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 2b6452f..1f9bba2 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -174,10 +174,16 @@ class ParticleCollectionSOA(ParticleCollection):
                 initialised.add(kwvar)
 
             # initialise the rest to their default values
-            for v in self.ptype.variables:
-                if v.name in initialised:
-                    continue
-
+            # Variables that refer to another Variable are initialised after that other one
+            remaining = [v for v in self.ptype.variables if v.name not in initialised]
+            ordered = []
+            while len(remaining) > 0:
+                names = [v.name for v in remaining]
+                ready = [v for v in remaining if not isinstance(v.initial, attrgetter)
+                         or v.initial.__reduce__()[1][0] not in names] or remaining
+                ordered += ready
+                remaining = [v for v in remaining if v not in ready]
+            for v in ordered:
                 if isinstance(v.initial, Field):
                     for i in range(self.ncount):
                         if (time[i] is None) or (np.isnan(time[i])):
-- 
2.43.0


From 8dbbc64267f219d42aefcf998ffc35f3de60c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:08 +0000
Subject: [PATCH 31/43] fix: ParticleSets do not share the dtype and write
 status of their Variables

---
 parcels/particle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/particle.py b/parcels/particle.py
index 470a405..1289784 100644
--- a/parcels/particle.py
+++ b/parcels/particle.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ctypes import c_void_p
 from operator import attrgetter
 
@@ -78,6 +79,8 @@ class ParticleType(object):
                         raise AttributeError(
                             "Custom Variable name 'z' is not allowed, as it is used for depth in ParticleFile")
                 self.variables = ptype.variables + self.variables
+        # The dtype and write status of a Variable belong to one ParticleSet, not to all that use this class
+        self.variables = [copy(v) for v in self.variables]
         # Sort variables with all the 64-bit first so that they are aligned for the JIT cptr
         self.variables = [v for v in self.variables if v.is64bit()] + \
                          [v for v in self.variables if not v.is64bit()]
-- 
2.43.0


From 5e518d6eb3e19d6aa7051ce178583500e9b11c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:13 +0000
Subject: [PATCH 32/43] fix: repeated releases start from the initial values of
 the particles

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..14c2c94 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,11 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From 235f717a7dcb7c72f8ac8d2c50eecfab425b4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:13 +0000
Subject: [PATCH 33/43] fix: refuse a repeatdt that is not positive or comes
 with different start times

---
 parcels/particlesets/particlesetsoa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 14c2c94..94b53ac 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -127,9 +127,9 @@ class ParticleSetSOA(BaseParticleSet):
         self.repeatdt = repeatdt.total_seconds() if isinstance(repeatdt, delta) else repeatdt
         if self.repeatdt:
             if self.repeatdt <= 0:
-                raise('Repeatdt should be > 0')
-            if time[0] and not np.allclose(time, time[0]):
-                raise ('All Particle.time should be the same when repeatdt is not None')
+                raise ValueError('Repeatdt should be > 0')
+            if time[0] is not None and not np.allclose(time, time[0]):
+                raise ValueError('All Particle.time should be the same when repeatdt is not None')
             self.repeatpclass = pclass
             self.repeatkwargs = kwargs
 
-- 
2.43.0


From 91d7df4e66d72fbe0f0ba60472d28706ba362882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:13 +0000
Subject: [PATCH 34/43] fix: ParticleSet.execute over several intervals without
 a FieldSet

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..9faa741 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -470,7 +470,7 @@ class BaseParticleSet(NDCluster):
                     for extFunc in postIterationCallbacks:
                         extFunc()
                 next_callback += callbackdt * np.sign(dt)
-            if time != endtime:
+            if time != endtime and self.fieldset is not None:
                 next_input = self.fieldset.computeTimeChunk(time, dt)
             if dt == 0:
                 break
-- 
2.43.0


From cfbac9212b12217afd6c419c60ca6b8f3237466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:04 +0000
Subject: [PATCH 35/43] fix: backward ParticleSet.execute without a FieldSet

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 9faa741..7bed54f 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -423,7 +423,7 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else np.inf
+        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else (np.inf if dt > 0 else -np.inf)
 
         tol = 1e-12
         if verbose_progress is None:
-- 
2.43.0


From 73d28fd6e1b0d016fa0756a3fef0b528104d5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 36/43] fix: writing particle 0 alone, and particles whose time
 differs from the output time

---
 parcels/particlesets/collectionsoa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 1f9bba2..4644d3b 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -840,17 +840,18 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = np.where(np.isin(self._data['state'],
                                                             [OperationCode.Delete]))[0]
                     elif type(deleted_only) in [list, np.ndarray]:
-                        indices_to_write = deleted_only
+                        is_boolean = np.array(deleted_only).dtype == bool
+                        indices_to_write = np.where(deleted_only)[0] if is_boolean else deleted_only
                 else:
-                    indices_to_write = _to_write_particles(self._data, time)
-                if np.any(indices_to_write) > 0:
+                    indices_to_write = np.where(_to_write_particles(self._data, time))[0]
+                if len(indices_to_write) > 0:
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
                     pfile.maxid_written = np.maximum(pfile.maxid_written, np.max(data_dict['id']))
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From 481fab1c1500d307deeceb1a3026fc756b5b9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 37/43] fix: variables written once of particles deleted before
 their first output

---
 parcels/particlefile.py               | 10 ++++++++--
 parcels/particlesets/collectionsoa.py |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..0cb0ae1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -248,12 +248,13 @@ class ParticleFile(object):
         self.dump_dict_to_npy(data_dict, data_dict_once)
         self.dump_psetinfo_to_npy()
 
-    def read_from_npy(self, file_list, time_steps, var):
+    def read_from_npy(self, file_list, time_steps, var, ids=None):
         """Read NPY-files for one variable using a loop over all files.
 
         :param file_list: List that  contains all file names in the output directory
         :param time_steps: Number of time steps that were written in out directory
         :param var: name of the variable to read
+        :param ids: ids of the particles to return. Default is all particles in the files
         """
         data = np.nan * np.zeros((self.maxid_written+1, time_steps))
         time_index = np.zeros(self.maxid_written+1, dtype=np.int64)
@@ -275,6 +276,9 @@ class ParticleFile(object):
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
 
+        if ids is not None:
+            return data[ids, :]
+
         # remove rows and columns that are completely filled with nan values
         tmp = data[time_index > 0, :]
         return tmp[:, t_ind_used == 1]
@@ -315,12 +319,14 @@ class ParticleFile(object):
             data = self.read_from_npy(global_file_list, len(self.time_written), var)
             if var == self.var_names[0]:
                 self.open_netcdf_file(data.shape)
+            if var == 'id':
+                ids = data[:, :1].ravel().astype(np.int64)
             varout = 'z' if var == 'depth' else var
             getattr(self, varout)[:, :] = data
 
         if len(self.var_names_once) > 0:
             for var in self.var_names_once:
-                getattr(self, var)[:] = self.read_from_npy(global_file_list_once, 1, var)
+                getattr(self, var)[:] = self.read_from_npy(global_file_list_once, 1, var, ids)
 
         self.dataset.close()
 
diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 4644d3b..dcbfbc7 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -858,7 +858,12 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    if deleted_only is not False:
+                        first_write = np.zeros(len(self._data['id']), dtype=bool)
+                        first_write[indices_to_write] = True
+                    else:
+                        first_write = _to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time)
+                    first_write = first_write & np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From 56bd271291db956ce3cdcfcaef73ae5a1cf660da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 38/43] fix: output to a directory whose name contains 'once'

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 0cb0ae1..76fe9f9 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -271,7 +271,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if 'once' not in os.path.basename(npyfile) else np.zeros_like(id_ind)
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From 5c17d4f68a0ebb4950908686ab234c6e862e592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 39/43] fix: export of output that returns to earlier times

---
 parcels/particlefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 76fe9f9..cd55c1c 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -272,6 +272,9 @@ class ParticleFile(object):
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
             t_ind = time_index[id_ind] if 'once' not in os.path.basename(npyfile) else np.zeros_like(id_ind)
+            if np.max(t_ind) >= data.shape[1]:  # more outputs of a particle than different output times
+                data = np.hstack([data, np.nan * np.zeros((data.shape[0], 1))])
+                t_ind_used = np.append(t_ind_used, 0)
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From ad0910b807ec760bee7a74192086c387b12b89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:19 +0000
Subject: [PATCH 40/43] fix: output written before an interruption can always
 be converted

---
 parcels/particlefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index cd55c1c..87303c6 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -232,8 +232,11 @@ class ParticleFile(object):
         for a in attrs_to_dump:
             if hasattr(self, a):
                 pset_info[a] = getattr(self, a)
-        with open(os.path.join(self.tempwritedir, 'pset_info.npy'), 'wb') as f:
+        # replace the previous file only when complete, so that an interrupted run can still be converted
+        pset_info_file = os.path.join(self.tempwritedir, 'pset_info.npy')
+        with open(pset_info_file + '.tmp', 'wb') as f:
             np.save(f, pset_info)
+        os.replace(pset_info_file + '.tmp', pset_info_file)
 
     def write(self, pset, time, deleted_only=False):
         """Write all data from one time step to a temporary npy-file
-- 
2.43.0


From fab55e7b8ee2a503d86502d46ca9f0dd015d9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:34 +0000
Subject: [PATCH 41/43] fix: files holding different numbers of snapshots can
 be read

---
 parcels/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 00455fe..65dc3af 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -237,9 +237,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From 43f22e15119bd7e094c03485b6d5c38ed3be232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:34 +0000
Subject: [PATCH 42/43] fix: deferred loading backward in time starts with the
 snapshots around the start time

---
 parcels/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..562fcb9 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -212,7 +212,7 @@ class Grid(object):
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-                if signdt == -1 and self.ti > 0:
+                if signdt == -1 and self.ti > 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
-- 
2.43.0


From 89fa92e97b3f6938ff0d9f6140f9a863497a2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:34 +0000
Subject: [PATCH 43/43] fix: deferred time-periodic fields at the end of the
 period

---
 parcels/field.py               | 22 +++++++++++++---------
 parcels/include/index_search.h | 19 +++++--------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 65dc3af..ba8dd3b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1065,17 +1065,21 @@ class Field(object):
             raise TimeExtrapolationError(time, field=self)
         time_index = self.grid.time <= time
         if self.time_periodic:
+            periods = 0
             if time_index.all() or np.logical_not(time_index).all():
-                periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
-                if isinstance(self.grid.periods, c_int):
-                    self.grid.periods.value = periods
-                else:
-                    self.grid.periods = periods
-                time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
+                period = self.grid.time_full[-1] - self.grid.time_full[0]
+                periods = int(math.floor((time-self.grid.time_full[0])/period))
+                if time - periods*period < self.grid.time[0]:  # the end of the period, with only the last snapshots loaded
+                    periods -= 1
+                time -= periods*period
                 time_index = self.grid.time <= time
-                ti = time_index.argmin() - 1 if time_index.any() else 0
-                return (ti, periods)
-            return (time_index.argmin() - 1 if time_index.any() else 0, 0)
+            if isinstance(self.grid.periods, c_int):
+                self.grid.periods.value = periods
+            else:
+                self.grid.periods = periods
+            if time_index.all():
+                return (len(self.grid.time) - 1, periods)
+            return (time_index.argmin() - 1 if time_index.any() else 0, periods)
         if time_index.all():
             # If given time > last known field time, use
             # the last field frame without interpolation
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 63049eb..fb629f6 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -436,23 +436,14 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
   if (*ti < 0)
     *ti = 0;
   if (time_periodic == 1){
-    if (*t < tvals[0]){
-      *ti = size-1;
+    *periods = 0;
+    if (*t < tvals[0] || *t > tvals[size-1]){
       *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
+      if (*t - *periods * (tfull_max-tfull_min) < tvals[0]) // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
         *periods -= 1;
-        *t -= *periods * (tfull_max-tfull_min);
-      }
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-    else if (*t > tvals[size-1]){
-      *ti = 0;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
       *t -= *periods * (tfull_max-tfull_min);
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-  }          
+    }
+  }
   while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
-- 
2.43.0

