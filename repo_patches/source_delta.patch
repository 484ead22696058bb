From e6f0c87567b5a8c6bf98fdaeea306d3297540307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/36] fix: apply_mass_matrix uses the pressure mesh size for
 the pressure block

The lambda that doubles h for the pressure grid took its argument by
value, so hp stayed equal to h and the pressure mass matrix was too small
by a factor 2^Dimensions.
---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From c212a95d849943cc998bb8cadf7097d6164af5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 02/36] fix: set up the DMDAs of the 3D meshes and of the
 Laplacian meshes

DMSetUp was only called for the 2D Stokes mesh; without it
DMDASetFieldName and everything after it fail (DMSetUp is required since
PETSc 3.8), so no 3D mesh and no Laplacian mesh could be created.
---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From e00c0d92a4a9ebf456ea5de33dc21ca25c28f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/36] fix: Dirichlet rows of the assembled matrix on one
 process with periodicity

set_dirichlet_on_mat_impl numbers the rows of the ghosted local domain,
but on one process it took the sizes of the global grid. With a periodic
direction the ghosted domain is larger, so the wrong rows were replaced
(e.g. interior rows instead of the top border with -xperiod).
---
 cafes/fem/bc.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..85dc00c 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,10 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      // the local numbering is the one of the ghosted domain, which is larger than the
+      // grid on one process too if a direction is periodic
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +228,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +244,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +264,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From a9b44c28d6379133dfcf8681b8230701df7c783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 04/36] fix: transpose of the coupling term in the assembled
 strain tensor

The (u, v) block of getMatElemStrainTensorA used d_x phi_i d_y phi_j with
the indices swapped, so strain_tensor_assembling gave a non symmetric
matrix that differs from strain_tensor_mult in the rows of boundary nodes.
---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From be84a8b67ffe07a37cd50354b1b21a7f8c747c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 05/36] fix: multigrid level of a coarse grid on non-square and
 3D meshes

---
 cafes/problem/stokes.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..e58b2ae 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,18 +60,16 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
+            // find the level in MG: each coarsening halves the number of elements
+            DMDALocalInfo info, info_0;
+            ierr = DMDAGetLocalInfo(dm, &info);CHKERRQ(ierr);
+            ierr = DMDAGetLocalInfo(ctx_->dm, &info_0);CHKERRQ(ierr);
+            int end = (info_0.bx == DM_BOUNDARY_PERIODIC) ? 0 : 1;
             int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
-            {
+            for (int nx_0 = info_0.mx - end; nx_0 > info.mx - end; nx_0 /= 2)
                 level++;
-                nx_0 = (nx_0+1)/Dim;
-            }
 
             auto mg_h = ctx_->h;
             std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-- 
2.43.0


From b43114b497a39c8972c1d1852e8995c25eee425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 06/36] fix: sign of vector += velocity and order of velocity -
 vector

vector += velocity subtracted, and velocity - vector returned
vector - velocity.
---
 cafes/particle/geometry/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
-- 
2.43.0


From ad52b3c444764711fbe2039b9e04ecf51a656355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 07/36] fix: sign of the particle velocity imposed by DtoN

g must be the fluid velocity minus the rigid motion v + w x r; the
translation was added with the opposite sign (partly because velocity -
vector used to return vector - velocity), so the particles moved with -v.
---
 cafes/problem/particle_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..400b0f7 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,7 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= geometry::vector<double, Dimensions>(particles[ipart].velocity_) + geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
         }
         ipart++;
       }
-- 
2.43.0


From 870bbd5ff5955df265206f5c6df2ade911308688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 08/36] fix: normalize a quaternion by its norm

It was divided by the squared norm, so that a rotation about an axis which
is not a unit vector was no rotation.
---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..3e47fc7 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -89,7 +89,7 @@ namespace cafes
 
       void normalize()
       {
-        auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
+        auto norm = std::sqrt(std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.));
         components_ /= norm;
       }
 
-- 
2.43.0


From 625c74ce07e74cfc40a1c687ebeae6e2b4adb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 09/36] fix: linspace with one value

The step was 0/0 and the value not a number.
---
 cafes/particle/geometry/linspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/linspace.hpp b/cafes/particle/geometry/linspace.hpp
index b41c7a1..a03872a 100644
--- a/cafes/particle/geometry/linspace.hpp
+++ b/cafes/particle/geometry/linspace.hpp
@@ -44,7 +44,7 @@ namespace cafes
         std::vector<double> that;
         that.reserve(num);
         int ns = (include_end)? num - 1: num;
-        double step = (end - beg)/ns;
+        double step = (ns > 0)? (end - beg)/ns: 0.;
 
         for(size_t i=0; i<num; ++i)
             that.push_back(beg + i*step);
-- 
2.43.0


From 7e8bf6bd500262d227e92a55367cbeb6e96be53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 10/36] fix: check_box_inside needs an overlap in every
 direction

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From 0bdc2f8c2f8a0e7b658da14fa7306dd64c5a4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 11/36] fix: rotation of 3D super ellipsoids and of parametric
 surface points

The implicit function in 3D, the parametric representations at and radial
and the 3D surface sampling ignored the quaternion, so the points of the
surface of a rotated shape were not on the surface.
---
 cafes/particle/geometry/super_ellipsoid.hpp | 37 +++++++++++----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..2f6b327 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -241,6 +241,9 @@ namespace cafes
 
             }
             std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            if (q_.is_rotate()){
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
+            }
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
@@ -268,37 +271,34 @@ namespace cafes
         position_type at(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) + center_[0]
-                  , shape_factors_[1] * s(u,n_) + center_[1]
-                  };
+          return radial(u) + center_;
         }
 
         position_type radial(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) 
-                  , shape_factors_[1] * s(u,n_) 
-                  };
+          position_type r{ shape_factors_[0] * c(u,n_)
+                         , shape_factors_[1] * s(u,n_)
+                         };
+          return q_.is_rotate()? q_.rotate(r): r;
         }
 
         position_type at(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_) + center_[0]
-                  , shape_factors_[1] * c(v,n_) * s(u,e_) + center_[1]
-                  , shape_factors_[2] * s(v,n_) + center_[2]
-                  };
+          return radial(u, v) + center_;
         }
 
         position_type radial(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_)
-                  , shape_factors_[1] * c(v,n_) * s(u,e_)
-                  , shape_factors_[2] * s(v,n_) 
-                  };
+          position_type r{ shape_factors_[0] * c(v,n_) * c(u,e_)
+                         , shape_factors_[1] * c(v,n_) * s(u,e_)
+                         , shape_factors_[2] * s(v,n_)
+                         };
+          return q_.is_rotate()? q_.rotate(r): r;
         }
 
         double implicit(position_type const& p) const
@@ -329,12 +329,15 @@ namespace cafes
            auto r2 = e_/n_;
            auto r3 = 2./e_;
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From ebc51d22f85e0132e6f8e3ed7e4d31bd5230f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 12/36] fix: 3D surface sampling appended to the vector it was
 iterating over

push_back in a for_each over the same vector invalidates the iterators.
---
 cafes/particle/geometry/super_ellipsoid.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 2f6b327..b0baf7d 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,10 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i=0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
             if (q_.is_rotate()){
               std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
             }
-- 
2.43.0


From 7400d58a8f850b10c2622ac2dc6ac80b64bbecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/36] fix: set_materials starts from empty counters

Called again with the same containers it added the number of points inside
the particles to the previous one and kept the surface points of particles
which left the process.
---
 cafes/particle/particle.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..8285241 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -253,10 +253,10 @@ namespace cafes
                      nb_type& nb_surf_points, num_type& num, box_type const& box,
                      std::array<double, Dimensions> const &h, dpart_type const& dpart, std::size_t const scale)
   {
-    surf_points.resize(parts.size());
-    radial_vec.resize(parts.size());
-    nb_surf_points.resize(parts.size());
-    num.resize(parts.size());
+    surf_points.assign(parts.size(), {});
+    radial_vec.assign(parts.size(), {});
+    nb_surf_points.assign(parts.size(), 0);
+    num.assign(parts.size(), 0);
 
     std::size_t size = 0;
     std::size_t ipart = 0;
-- 
2.43.0


From 21b589dd9f1393992c33858ef9ffe54572c804b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 14/36] fix: exponents of the 3D surface sampling

e_ shapes the x-y sections and n_ the profile in z in the implicit function
and in the parametric representation; the sampling had them swapped, so
its points are not on the surface when the two differ.
---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index b0baf7d..436e098 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From e9b83e369001960227ae557beba579ca7d4dd97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 15/36] fix: SEM::solve starts the last problem from a zero
 right-hand side

It was added to the single layer right-hand side of the last application of
the operator.
---
 cafes/problem/sem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..657f067 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -198,6 +198,7 @@ namespace cafes
         ierr = KSPSolve(ksp, rhs, sol);CHKERRQ(ierr);
 
         // solve the problem with the right control
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
         ctx->compute_rhs = true;
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
-- 
2.43.0


From 0aea60dbb021a022c9ab5581defdc1fc0fed8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 16/36] fix: forces and torques of SEM

The sum over the control points was divided by the number of integration
points, which is scale_^Dimensions times larger.
---
 cafes/problem/sem.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 657f067..7886814 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -257,6 +257,14 @@ namespace cafes
                                            h,
                                            false);CHKERRQ(ierr);
 
+        // num_ counts scale_^Dimensions integration points for each point of the control
+        double const points = std::pow(scale_, Dimensions);
+        for(std::size_t ipart=0; ipart<parts_.size(); ++ipart)
+        {
+          forces[ipart] *= points;
+          torques[ipart] *= points;
+        }
+
         PetscFunctionReturn(0);
       }
 
-- 
2.43.0


From 6d8553bdcb9d8d543250ac9435ef69090a6ce713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 17/36] fix: index of the force that gets the singular part

forces has one entry per particle.
---
 cafes/particle/forces_torques.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
-- 
2.43.0


From 4fad006db5139b69b10c852e8bb19cf8db9465ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 18/36] fix: control points independent of the distribution of
 the mesh

The coordinates of the nodes were accumulated from the first node of the
process, so a node on the border of a particle could be inside for one
decomposition and outside for another one.
---
 cafes/particle/particle.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index 8285241..cde46bb 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -114,12 +114,11 @@ namespace cafes
       std::vector<geometry::position<int, 2>> that;
       that.reserve(b.length());
 
-      double x, y;
       std::size_t ix, iy;
-      for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-          for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+      for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+          for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
           {
-              cafes::geometry::position<double, 2> pt {x,y};
+              cafes::geometry::position<double, 2> pt {ix*h[0], iy*h[1]};
               if(p.contains(pt)) that.push_back({ix, iy});
           }
 
@@ -132,13 +131,12 @@ namespace cafes
     std::vector<geometry::position<int, 3>> that;
     that.reserve(b.length());
 
-    double x, y, z;
     std::size_t ix, iy, iz;
-    for(z=b.bottom_left[2]*h[2], iz=b.bottom_left[2]; iz<b.upper_right[2]; z+=h[2], ++iz)
-        for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-            for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+    for(iz=b.bottom_left[2]; iz<b.upper_right[2]; ++iz)
+        for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+            for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
             {
-               cafes::geometry::position<double, 3> pt {x, y, z};
+               cafes::geometry::position<double, 3> pt {ix*h[0], iy*h[1], iz*h[2]};
                if(p.contains(pt)) that.push_back({ix, iy, iz});
             }   
 
-- 
2.43.0


From 07d16c4f670dd9f5aa9bc221571fccdc70c827f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 19/36] fix: right-hand side of DtoN and SEM after a previous
 solve

---
 cafes/problem/dton.hpp | 10 +++++++++-
 cafes/problem/sem.hpp  |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..cd42963 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -189,7 +189,15 @@ namespace cafes
                     // ctx->compute_singularity = false;
                 }
 
-                ierr = MatMult(A, sol, rhs);
+                // sol may hold the control of a previous solve
+                Vec no_control;
+                ierr = VecDuplicate(sol, &no_control);
+                CHKERRQ(ierr);
+                ierr = VecSet(no_control, 0.);
+                CHKERRQ(ierr);
+                ierr = MatMult(A, no_control, rhs);
+                CHKERRQ(ierr);
+                ierr = VecDestroy(&no_control);
                 CHKERRQ(ierr);
                 ierr = VecScale(rhs, -1.);
                 CHKERRQ(ierr);
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 7886814..2f2d49c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -161,7 +161,12 @@ namespace cafes
 
         ctx->compute_rhs = true;
 
-        ierr = MatMult(A, sol, rhs);CHKERRQ(ierr);
+        // sol may hold the control of a previous solve
+        Vec no_control;
+        ierr = VecDuplicate(sol, &no_control);CHKERRQ(ierr);
+        ierr = VecSet(no_control, 0.);CHKERRQ(ierr);
+        ierr = MatMult(A, no_control, rhs);CHKERRQ(ierr);
+        ierr = VecDestroy(&no_control);CHKERRQ(ierr);
         ierr = VecScale(rhs, -1.);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
-- 
2.43.0


From 201174b335c6c58ab2570faa4addd7c157209fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 20/36] fix: extents of the fields in the XDMF description

---
 cafes/io/hdf5.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..8b73a1d 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -41,7 +41,8 @@ namespace cafes
     namespace io
     {
         void create_xdmf(const char *path, const char *filename,
-                         DMDALocalInfo const &info,
+                         DMDALocalInfo const &infou,
+                         DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
         {
             std::stringstream output;
@@ -61,7 +62,7 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << infop.my << " " << infop.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -73,7 +74,7 @@ namespace cafes
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << infop.my << " " << infop.mx << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,7 +83,7 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << infou.my << " " << infou.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -94,7 +95,7 @@ namespace cafes
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << infou.my << " " << infou.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -155,7 +156,7 @@ namespace cafes
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, h);
+                create_xdmf(path, filename, infou, infop, h);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0


From a3308b76df2187d5e90bfe75df8d205623dc91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 21/36] fix: interpolation of velocity and pressure on a
 refined mesh

The pressure kernel wrote one value per direction into a field of one
component (out of bounds), the factors were swapped between directions, only
two directions were refined, and nodes of the refined mesh at the border
between two processes were left out.
---
 cafes/posttraitement/interpolation.hpp | 88 ++++++++++++++------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..ab32493 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -73,20 +73,17 @@ namespace cafes
     	PetscErrorCode ierr;
     	PetscFunctionBeginUser;
     	DM dav, dap, dav_refine, dap_refine;
-    	Vec solv_refine, solp_refine, coord_dav;
-      PetscInt xstart, xend, ystart, yend, zstart, zend;
-      PetscInt localsize;
+      std::array<PetscInt, 3> factor{{1, 1, 1}};
+      std::copy(refine.begin(), refine.end(), factor.begin());
 
-    	DMCompositeGetEntries(dm, &dav, &dap);
-      DMClone(dav, &dav_refine);
-      DMClone(dap, &dap_refine);
-    	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
-      ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);
-      ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
-      ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);
-      DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);
-      DMCompositeAddDM(dm_refine, dav_refine);
-      DMCompositeAddDM(dm_refine, dap_refine);
+    	ierr = DMCompositeGetEntries(dm, &dav, &dap);CHKERRQ(ierr);
+    	ierr = DMDASetRefinementFactor(dav, factor[0], factor[1], factor[2]);CHKERRQ(ierr);
+      ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);CHKERRQ(ierr);
+      ierr = DMDASetRefinementFactor(dap, factor[0], factor[1], factor[2]);CHKERRQ(ierr);
+      ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);CHKERRQ(ierr);
+      ierr = DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);CHKERRQ(ierr);
+      ierr = DMCompositeAddDM(dm_refine, dav_refine);CHKERRQ(ierr);
+      ierr = DMCompositeAddDM(dm_refine, dap_refine);CHKERRQ(ierr);
     	ierr = DMCreateGlobalVector(dm_refine, &sol_refine);CHKERRQ(ierr);
     	auto solv = petsc::petsc_vec<Dimensions>(dm, sol, 0);
       auto solv_ref = petsc::petsc_vec<Dimensions>(dm_refine, sol_refine, 0, false);
@@ -98,48 +95,57 @@ namespace cafes
       ierr = solp.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
       // INTERPOLATION KERNEL
-      auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
+      // Each process fills its own nodes of the refined mesh: the element they
+      // are in is always available in the local part of the coarse solution.
+      auto const kernel = [&refine, &h](const auto& sol, auto& sol_ref, const auto& last)
       {
-        auto const kernel_pos = [&](auto const &pos)
+        auto const kernel_pos = [&](auto const &refpos)
         {
+          geometry::position<int, Dimensions> pos;
+          geometry::position<double, Dimensions> x;
+          for (std::size_t d=0; d<Dimensions; d++)
+          {
+            pos[d] = std::min(refpos[d]/refine[d], last[d]);
+            x[d] = (refpos[d] - pos[d]*refine[d])*h[d]/refine[d];
+          }
           auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          auto bfunc = fem::P1_integration(x, h);
+          auto uref = sol_ref.at_g(refpos);
+          for (int d=0; d<sol.dof_; d++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            uref[d] = 0;
+          }
+          for (std::size_t k=0; k<bfunc.size(); k++)
+          {
+            auto u = sol.at(ielem[k]);
+            for (int d=0; d<sol.dof_; d++)
             {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
-              {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
-              }
+              uref[d] += u[d]*bfunc[k];
             }
           }
         };
         return kernel_pos;
       };
 
+      // last element in each direction
+      auto const last_element = [](DM& da)
+      {
+        auto last = fem::get_global_bounds<Dimensions>(da);
+        auto boundary = fem::get_boundary_type<Dimensions>(da);
+        for (std::size_t d=0; d<Dimensions; d++)
+        {
+          last[d] -= (boundary[d] == DM_BOUNDARY_PERIODIC)? 1: 2;
+        }
+        return last;
+      };
+
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
-      algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
+      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
+      algorithm::iterate(box, kernel(solv, solv_ref, last_element(dav)));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
-      algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
-
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
+      algorithm::iterate(boxp, kernel(solp, solp_ref, last_element(dap)));
 
       PetscFunctionReturn(0);
     }
-- 
2.43.0


From 13b16ee69747979074157a9d46fb7259074acce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 22/36] fix: plateau of the truncation function and its fourth
 derivative

---
 cafes/particle/singularity/truncation.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..f2623ef 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*X*(7*X4-10*X2+3);
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From 441e3ea4da99598b6adac23801f2e9e6e7761458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 23/36] fix: normal velocity of the 2D lubrication field where
 it is truncated

---
 cafes/particle/singularity/UandPNormal.hpp | 43 +++-------------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..b85d17f 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -138,44 +138,11 @@ namespace cafes
       double t156 = t155 * t155;
       double t158 = 1. / (H + M) / t156;
       double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // same truncation of the stream function as for uz and for the gradients
+      double t162 = dchiTrunc(r, l, eps);
+      double t163 = 2 * a + t133 + t2;
+      double t164 = z + t2 / 2;
+      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + 24 * U * t1 * t164 * t164 * (t163 - 4. / 3. * t164) / (t155 * t163) * t162;
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 6917d0645da954aa6312aff047670a9407c7462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 24/36] fix: gradient of the 3D lubrication field on its axis

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index b85d17f..aae23e8 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -706,7 +706,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -753,7 +753,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From ff618ac6472b4e7d6637fb1e203658d9dbdf1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 25/36] fix: frame and sign of the 3D lubrication field

---
 cafes/particle/singularity/singularity.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..2ce6cbc 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,23 +216,23 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        // tangential part of the relative velocity: dU - (dU.n)n
+        for(std::size_t d=0; d<3; ++d)
+          base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
+
+        auto tang_norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
+        if (tang_norm <= 1e-20*vel_norm)
         {
+          // the relative velocity is along n: any vector orthogonal to n
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
-        }
-        else
-        {
-          // Check the formula to have dU - (dU.n)n ?
-          for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
         }
 
         auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
-- 
2.43.0


From 23b7ab016babf4895a7c59244e53b9427002da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 26/36] fix: loops over the pairs of an empty list of particles

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..bb174cb 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -886,7 +886,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -927,7 +927,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -968,7 +968,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1019,7 +1019,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 806be48c8376137e22a8d679ea34e46c83fd0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 27/36] fix: lubrication field added to a solution shared by
 several processes

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index bb174cb..ee94795 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From bce98eacdff78485bac55da20b64a276713cfb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 28/36] fix: lubrication forces on the particles

---
 .../particle/singularity/add_singularity.hpp  | 65 +++++++++++++------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index ee94795..62f9f8c 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -651,9 +651,12 @@ namespace cafes
             double mu = 1.;
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
+            int n = N;
+
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -663,7 +666,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +675,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -689,9 +696,12 @@ namespace cafes
             double mu = 1.;
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
+            int n = N;
+
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -701,7 +711,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +720,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -725,21 +739,26 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
+
+            int n = N;
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ +
+                                      (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +767,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -804,12 +827,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -863,12 +886,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 539208ec2b9ddcde85de41de307fbe9124d9988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 29/36] fix: linear operator of DtoN with singularities

---
 cafes/problem/dton.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index cd42963..682fd0a 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -330,8 +330,7 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From deb239bacece677b16bc15acc33788bef6553aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 30/36] fix: lubrication field evaluated behind the particles

---
 .../particle/singularity/add_singularity.hpp  | 21 ++++++++++++-------
 cafes/particle/singularity/singularity.hpp    |  7 +++++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 62f9f8c..2690efc 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -93,8 +93,9 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_between_particles(pos_ref_part) &&
+                                    std::abs(pos_ref_part[1]) <=
+                                        sing.cutoff_dist_)
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
@@ -234,7 +235,10 @@ namespace cafes
                                                          j * h[1] + js * hs[1],
                                                          k * h[2] + ks * hs[2]};
 
-                                    if (!p1.contains(pts) && !p2.contains(pts))
+                                    if (!p1.contains(pts) &&
+                                        !p2.contains(pts) &&
+                                        sing.is_between_particles(
+                                            sing.get_pos_in_part_ref(pts)))
                                     {
                                         position_type pts_loc = {
                                             is * hs[0], js * hs[1], ks * hs[2]};
@@ -391,7 +395,8 @@ namespace cafes
                 if (geometry::point_inside(box, pos))
                 {
                     auto pos_ref_part = sing.get_pos_in_part_ref(pos);
-                    if (std::abs(pos_ref_part[1]) <= sing.cutoff_dist_)
+                    if (sing.is_between_particles(pos_ref_part) &&
+                        std::abs(pos_ref_part[1]) <= sing.cutoff_dist_)
                     {
                         auto Using = sing.get_u_sing(pos);
                         for (std::size_t d = 0; d < Dimensions; ++d)
@@ -408,7 +413,8 @@ namespace cafes
                 if (geometry::point_inside(box, pos))
                 {
                     auto pos_ref_part = sing.get_pos_in_part_ref(pos);
-                    if (std::abs(pos_ref_part[1]) <= sing.cutoff_dist_)
+                    if (sing.is_between_particles(pos_ref_part) &&
+                        std::abs(pos_ref_part[1]) <= sing.cutoff_dist_)
                     {
                         auto Using = sing.get_u_sing(pos);
                         for (std::size_t d = 0; d < Dimensions; ++d)
@@ -461,8 +467,9 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_between_particles(pos_ref_part) &&
+                                    std::abs(pos_ref_part[1]) <=
+                                        sing.cutoff_dist_)
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index 2ce6cbc..73d0398 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -266,6 +266,13 @@ namespace cafes
         return pos_ref_part;
       }
 
+      // between the centers of the particles: the field has no meaning behind them
+      bool is_between_particles(position_type const& pos_ref) const
+      {
+        double dist = pos_ref[Dimensions == 2 ? 0 : 2];
+        return -1./H1_ < dist && dist < contact_length_ + 1./H2_;
+      }
+
       auto get_pos_from_part_ref(position_type const& pos_ref)
       {
         position_type pos;
-- 
2.43.0


From a5ab40d7d25bb17d9c6fc89225ce1d8487dff423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 31/36] fix: 3D Stokes problems do not compile

Only the 2D versions of the matrix assembling exist, but the solvers
refer to them in every dimension. In 3D say so at run time, when
-assembling or a preconditioner asks for them.
---
 cafes/fem/assembling.hpp | 45 ++++++++++++++++++++++++++++++++++++++++
 cafes/fem/bc.hpp         |  6 ++++++
 2 files changed, 51 insertions(+)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..b080e83 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -601,5 +601,50 @@ namespace cafes
 
         return ierr;
     }
+
+    // The assembled matrices exist in 2D only: in 3D the operators are
+    // matrix-free.
+    inline void no_3d_assembling()
+    {
+        SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP,
+                    "-assembling is available in 2D only");
+    }
+
+    template<>
+    inline PetscErrorCode
+    laplacian_assembling<3>(DM &, Mat &, const std::array<double, 3> &)
+    {
+        no_3d_assembling();
+        return PETSC_ERR_SUP;
+    }
+
+    template<>
+    inline PetscErrorCode mass_assembling<3>(DM &, Mat &,
+                                             const std::array<double, 3> &)
+    {
+        no_3d_assembling();
+        return PETSC_ERR_SUP;
+    }
+
+    template<>
+    inline void strain_tensor_assembling<3>(DM &, Mat &,
+                                            const std::array<double, 3> &)
+    {
+        no_3d_assembling();
+    }
+
+    template<>
+    inline void diagonal_assembling<3>(DM &, Mat &, double)
+    {
+        no_3d_assembling();
+    }
+
+    template<>
+    inline PetscErrorCode B_BT_assembling<3>(DM &, Mat &,
+                                             const std::array<double, 3> &)
+    {
+        no_3d_assembling();
+        return PETSC_ERR_SUP;
+    }
 } // namespace cafes
 #endif
\ No newline at end of file
diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index 85dc00c..da691d5 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -300,6 +300,12 @@ namespace cafes
       PetscFunctionReturn(0);
     }
 
+    template<>
+    inline PetscErrorCode SetDirichletOnMat<3>(Mat&, dirichlet_conditions<3>)
+    {
+      SETERRABORT(PETSC_COMM_WORLD, PETSC_ERR_SUP, "assembled matrices are available in 2D only");
+    }
+
   }
 
   template<std::size_t Dimensions>
-- 
2.43.0


From 8bf57017320a763c76cdd118815ff7e1557b9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 32/36] fix: save_hdf5 of a 3D solution does not compile

create_xdmf existed for 2D only.
---
 cafes/io/hdf5.hpp | 50 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index 8b73a1d..9a6781c 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -107,6 +107,56 @@ namespace cafes
             myfile.close();
         }
 
+        inline void create_xdmf(const char *path, const char *filename,
+                                DMDALocalInfo const &infou,
+                                DMDALocalInfo const &infop,
+                                std::array<double, 3> const &h)
+        {
+            std::ofstream myfile;
+            myfile.open(std::string(path) + "/" + filename + ".xdmf");
+
+            auto const grid = [&](std::string const &name,
+                                  std::string const &type,
+                                  std::string const &components,
+                                  DMDALocalInfo const &info, double scale) {
+                myfile << "    <Grid Name=\"" << name
+                       << "_grid\" GridType=\"Uniform\">\n";
+                myfile << "      <Topology TopologyType=\"3DCoRectMesh\" "
+                          "NumberOfElements=\""
+                       << info.mz << " " << info.my << " " << info.mx
+                       << "\"/>\n";
+                myfile << "      <Geometry GeometryType=\"ORIGIN_DXDYDZ\">\n";
+                myfile << "        <DataItem DataType=\"Float\" Dimensions= "
+                          "\"3\" Format=\"XML\">0.0 0.0 0.0 </DataItem>\n";
+                myfile << "        <DataItem DataType=\"Float\" Dimensions= "
+                          "\"3\" Format=\"XML\">"
+                       << scale * h[0] << " " << scale * h[1] << " "
+                       << scale * h[2] << "</DataItem>\n";
+                myfile << "      </Geometry>\n";
+                myfile << "      <Attribute Name=\"" << name
+                       << "\" AttributeType=\"" << type
+                       << "\" Center=\"Node\">\n";
+                myfile << "        <DataItem DataType=\"Float\" "
+                          "Precision=\"8\" Format=\"HDF\" Dimensions=\""
+                       << info.mz << " " << info.my << " " << info.mx
+                       << components << "\">\n";
+                myfile << "          " << filename << ".h5:/" << name << "\n";
+                myfile << "        </DataItem>\n";
+                myfile << "      </Attribute>\n";
+                myfile << "    </Grid>\n";
+            };
+
+            myfile << "<Xdmf>\n";
+            myfile << "<Domain>\n";
+            myfile << "  <Grid CollectionType=\"Spatial\" "
+                      "GridType=\"Collection\" Name=\"Collection\">\n";
+            grid("pressure", "Scalar", "", infop, 2.);
+            grid("velocity", "Vector", " 3", infou, 1.);
+            myfile << "  </Grid>\n";
+            myfile << "</Domain>\n";
+            myfile << "</Xdmf>\n";
+        }
+
 #undef __FUNCT__
 #define __FUNCT__ "save_hdf5"
         template<std::size_t dim>
-- 
2.43.0


From 1f2696af0480fe6cf586c331c6aa9db91e42cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 33/36] fix: lubrication field of a 3D solution does not
 compile

addsingularity existed for 2D only, so DtoN could not be used in 3D.
---
 .../particle/singularity/add_singularity.hpp  | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 2690efc..9c3b97a 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -524,6 +524,62 @@ namespace cafes
             PetscFunctionReturn(0);
         }
 
+#undef __FUNCT__
+#define __FUNCT__ "addsingularity"
+        template<typename Shape>
+        PetscErrorCode
+        addsingularity(singularity<Shape, 3> sing, particle<Shape> const &p1,
+                       particle<Shape> const &p2, petsc::petsc_vec<3> &sol,
+                       geometry::box<int, 3> box,
+                       std::array<double, 3> const &h)
+        {
+            PetscFunctionBeginUser;
+
+            using position_type = geometry::position<double, 3>;
+            using position_type_i = geometry::position<int, 3>;
+
+            int const scale = sing.scale;
+            std::array<double, 3> hs = {
+                {h[0] / scale, h[1] / scale, h[2] / scale}};
+            double coef = 1. / (scale * scale * scale);
+
+            geometry::box<int, 3> sub_box{{0, 0, 0}, {scale, scale, scale}};
+
+            algorithm::iterate(box, [&](position_type_i const &pts_i) {
+                auto ielem = fem::get_element(pts_i);
+
+                algorithm::iterate(sub_box, [&](position_type_i const &sub_i) {
+                    position_type pts_loc = {sub_i[0] * hs[0], sub_i[1] * hs[1],
+                                             sub_i[2] * hs[2]};
+                    position_type pts = {pts_i[0] * h[0] + pts_loc[0],
+                                         pts_i[1] * h[1] + pts_loc[1],
+                                         pts_i[2] * h[2] + pts_loc[2]};
+
+                    if (p1.contains(pts) || p2.contains(pts))
+                        return;
+
+                    auto pos_ref_part = sing.get_pos_in_part_ref(pts);
+                    if (!sing.is_between_particles(pos_ref_part) ||
+                        pos_ref_part[0] * pos_ref_part[0] +
+                                pos_ref_part[1] * pos_ref_part[1] >
+                            sing.cutoff_dist_ * sing.cutoff_dist_)
+                        return;
+
+                    auto bfunc = fem::P1_integration(pts_loc, h);
+                    auto Using = sing.get_u_sing(pts);
+
+                    for (std::size_t je = 0; je < bfunc.size(); ++je)
+                    {
+                        auto u = sol.at(ielem[je]);
+
+                        for (std::size_t d = 0; d < 3; ++d)
+                            u[d] += coef * Using[d] * bfunc[je];
+                    }
+                });
+            });
+            PetscFunctionReturn(0);
+        }
+
 #undef __FUNCT__
 #define __FUNCT__ "add_singularity_in_fluid"
         template<std::size_t Dimensions, typename Ctx>
-- 
2.43.0


From dbf2a9a72f24cdaa2c58f9496c49a2894b8bfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 34/36] fix: saveParticles without forces keeps the third
 coordinate of the centers

---
 cafes/io/vtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/io/vtk.hpp b/cafes/io/vtk.hpp
index 9031019..364c5a0 100644
--- a/cafes/io/vtk.hpp
+++ b/cafes/io/vtk.hpp
@@ -728,7 +728,7 @@ namespace cafes
 
         std::size_t i = 0;
         for(auto& p: particles){
-          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], 0.);
+          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], (p.dimensions == 3)? p.center_[p.dimensions-1]: 0.);
           shperesRadius->SetValue(i, p.shape_factors_[0]);
           i++;
         }
-- 
2.43.0


From 0e06dc4cb41ea1c8b3c8b1a97837ef87512d2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 35/36] fix: the triangulation returns all the triangles of the
 hull's lower side, and only them

---
 cafes/particle/geometry/triangulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/triangulation.hpp b/cafes/particle/geometry/triangulation.hpp
index 319d2b4..131e46d 100644
--- a/cafes/particle/geometry/triangulation.hpp
+++ b/cafes/particle/geometry/triangulation.hpp
@@ -60,7 +60,7 @@ namespace cafes
 
       std::size_t ind = 0;
       for(auto &f: qhull.facetList()){
-        if (f.isTriCoplanar()){
+        if (!f.isUpperDelaunay()){
           orgQhull::QhullVertexSet ps= f.vertices();
 
           orgQhull::QhullVertexSetIterator i = ps;
@@ -73,6 +73,7 @@ namespace cafes
           ind++;
         }
       }
+      triangles.resize(ind);
       return triangles;
     }
 
-- 
2.43.0


From c6f551f53d7a67234e891a561015663a7ce64a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 36/36] fix: the normal velocity of the sliding film has its
 derivative on the axis

---
 cafes/particle/singularity/UandPTang.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/UandPTang.hpp b/cafes/particle/singularity/UandPTang.hpp
index 08851ea..9477bc9 100644
--- a/cafes/particle/singularity/UandPTang.hpp
+++ b/cafes/particle/singularity/UandPTang.hpp
@@ -1453,7 +1453,7 @@ namespace cafes
         return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[0]/r
           -    dtuz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[1]/r2;
       else
-        return 0;
+        return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param);
     }
 
     PetscScalar dyuz_sing_tangMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal d, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0

