From bcff8a16b5b483e6eb09392dd4955a467fe77a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:15 +0000
Subject: [PATCH 01/52] fix: cylindrical Yee push compiles with OpenMP
 (COLLAPSE on imperfectly nested loops)

The two loops have statements between the collapsed levels, so any -fopenmp
build (debug, prod_spectral, library modes of the Makefile) was rejected by the compiler.
---
 src/field_solvers/Maxwell/yee_solver/yee.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 0b724ab..81c4a5f 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -525,7 +525,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Etheta
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Et,Bz,Br,Jt)
 !$acc loop gang vector collapse(2)
@@ -571,7 +571,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Ez
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Ez,Br,Bt,Jz)
 !$acc loop gang vector collapse(2)
-- 
2.43.0


From b5a66ff50ac4e5ad51cfc79716e633374f8fc1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 02/52] fix: B-spline constants 1/6, 2/3 and 1/3 in working
 precision instead of single

---
 .../field_gathering_o1_2d.F90                 |  4 +--
 .../field_gathering_o2_2d.F90                 |  4 +--
 .../field_gathering_o3_2d.F90                 |  6 ++---
 .../field_gathering_on_2d.F90                 |  4 +--
 .../field_gathering_on_3d.F90                 |  4 +--
 .../field_gathering_on_circ.F90               |  4 +--
 .../charge_deposition_2d.F90                  |  4 +--
 .../esirkepov/esirkepov_2d.F90                | 26 +++++++++----------
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index 247fc3d..d9c375f 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -494,7 +494,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_1_1( np, xp, zp, ex, ey, ez, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -714,7 +714,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4929ffc..4cefda9 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -540,7 +540,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_2_2( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -798,7 +798,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index a51c6ec..9b5f419 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -334,7 +334,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, oxint, zintsq, ozint, oxintsq, ozintsq
   real(num), DIMENSION(lvect, -1:2)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -915,7 +915,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_3_3( np, xp, zp, bx, by, bz, xmin
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
@@ -1268,7 +1268,7 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index aba3e79..a5adeef 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -90,7 +90,7 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -383,7 +383,7 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
index 4f16728..0aaff37 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
@@ -723,7 +723,7 @@ subroutine pxr_getb3d_n_energy_conserving(np, xp, yp, zp, bx, by, bz, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -1068,7 +1068,7 @@ subroutine pxr_gete3d_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a3888c0..a64c311 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -96,7 +96,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
@@ -384,7 +384,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 6cacf2d..af379eb 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -59,7 +59,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
   real(num) :: dxi, dzi, xint, zint, oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: x, z, r, wq, invvol
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp) :: j, l, ip, jj, ll, ixmin, ixmax, izmin, izmax
 
   dxi = 1./dx
@@ -204,7 +204,7 @@ SUBROUTINE pxr_depose_rhoold_n_2dxz(rhoold, np, xp, zp, ux, uy, uz, gaminv, w, q
   real(num) :: x, z, xold, zold, wq, invvol, vx, vy, vz
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
   real(num) :: sxold(-int(nox/2):int((nox+1)/2)), szold(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp) :: j, l, ip, jj, ll, jold, lold, ixmin, ixmax, izmin, izmax, ndt, idt
   real(num) :: dxp, dzp, x0, z0, x1, z1
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 9726aeb..6dcd8e9 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -108,8 +108,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
   real(num) :: invvol, invdtdx, invdtdz
   real(num) :: oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter :: onesixth=1./6.
-  real(num), parameter :: twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num
+  real(num), parameter :: twothird=2._num/3._num
   real(num), dimension(:), allocatable :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp) :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz, i, k, ic, kc
   integer(idp) :: ixmin, ixmax, izmin, izmax, icell, ncells, ndtodx, ndtodz
@@ -385,7 +385,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
           ! -- Jy (2D Esirkepov scheme)
           jy(ic, kc) = jy(ic, kc) + wq*vy*invvol/ncells* ( (sz0(k)+0.5*dsz(k))*sx0(i) &
-          + (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+          + (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
           ! -- Jz
           if(k<izmax) then
@@ -474,8 +474,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: vx, vy, vz
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -689,8 +689,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -910,7 +910,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1060,7 +1060,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
         ! -- Jy (2D Esirkepov scheme)
         !$acc atomic update
         jy(ic, kc) = jy(ic, kc) + wq*vy*invvol* ( (sz0(k)+0.5*dsz(k))*sx0(i) +        &
-        (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+        (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
         ! --- Jz
         IF(k<izmax) THEN
@@ -1138,8 +1138,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
   ic, kc
@@ -1555,8 +1555,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
   idx, idz, i, k, ic, kc
-- 
2.43.0


From d6e2d119f327a6780c161180d43632f76e606d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 03/52] fix: vnr current deposition blocks particles by the
 lvect its work arrays have, not by LVEC

depose_jxjyjz_vecHV_vnr_{1_1_1,2_2_2,3_3_3} dimension their work arrays with the
argument lvect (lvec_curr_depo of the input deck) but looped over blocks of the
constant LVEC=8: any lvec_curr_depo below 8 wrote past their ends.
---
 .../direct/direct_current_deposition_3d.F90   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90 b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
index 671e55a..57b07ff 100644
--- a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
+++ b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
@@ -684,7 +684,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv2_1_1_1
 SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
   INTEGER(idp), INTENT(IN)                      :: np, nx, ny, nz, ncells
@@ -743,7 +742,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
 
   ! ____________________________________________
   ! LOOP ON PARTICLES
-  DO ip=1, np, LVEC
+  DO ip=1, np, lvect
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED uxp:64, uyp:64, uzp:64
@@ -768,7 +767,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
       x = (xp(nn)-xmin)*dxi
@@ -817,7 +816,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
     !$OMP END SIMD
 #endif
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
       !DIR$ ASSUME_ALIGNED mx:64, my:64, mz:64, sgn:64
@@ -1677,7 +1676,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv2_2_2_2
 SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
   ! ____ Parameter initialization _____________________________________
@@ -1756,7 +1754,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
   ! ___ Computation ______________________________________________
 
   ! LOOP ON PARTICLES
-  DO ip=1, np, LVEC
+  DO ip=1, np, lvect
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED sx0:64, sx1:64, sx2:64
@@ -1779,7 +1777,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
       x = (xp(nn)-xmin)*dxi
@@ -1900,7 +1898,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
     !$OMP END SIMD
 #endif
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
 #elif defined __IBMBGQ__
@@ -3448,7 +3446,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv3_3_3_3
 SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
 
@@ -3525,7 +3522,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
   ! LOOP ON PARTICLES
 
-  DO ip=1, np, LVEC
+  DO ip=1, np, lvect
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED vx:64, vy:64, vz:64
@@ -3549,7 +3546,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
 
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
@@ -3693,7 +3690,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
     ! Add weights to nearest vertices
 
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(lvect, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
 #elif defined __IBMBGQ__
-- 
2.43.0


From 9c6955987a7c1e37662508a3203d2495f1a27b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:58 +0000
Subject: [PATCH 04/52] fix: full-order branches of the 2D vectorised field
 gather

With l_lower_order_in_v=.FALSE. (and at order 1 and 2 for nodal fields) the vectorised 2D gathers
dropped nodes of the magnetic field (orders 1, 2), gathered each particle up to lvect times
(order 3 E: the outer loop had stride 1) and, in the fused order-3 routine, accumulated
row sums and added Ez to Ey and Bz to Bx.
---
 .../field_gathering_o1_2d.F90                 |  7 ++++
 .../field_gathering_o2_2d.F90                 | 11 ++++++
 .../field_gathering_o3_2d.F90                 | 36 +++++++++----------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index d9c375f..b1cf622 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -860,13 +860,20 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
         ! Compute Bx on particle
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 1)*bxg(j, 1, l0+1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
 
       ENDDO
     ENDDO
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4cefda9..963fbea 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -969,6 +969,9 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         sz0(n, 1) = 0.5_num*(0.5_num+zint)**2
 
         ! Compute Bx on particle
+        bx(nn) = bx(nn) + sx(n, -1)*sz0(n, -1)*bxg(j-1, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, -1)*bxg(j, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, -1)*bxg(j+1, 1, l0-1)
         bx(nn) = bx(nn) + sx(n, -1)*sz0(n, 0)*bxg(j-1, 1, l0)
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
@@ -977,16 +980,24 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, -1)*byg(j0-1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, -1)*byg(j0, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, -1)*byg(j0+1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 0)*byg(j0-1, 1, l0)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 1)*byg(j0-1, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, -1)*bzg(j0-1, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, -1)*bzg(j0, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, -1)*bzg(j0+1, 1, l-1)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 0)*bzg(j0-1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 1)*bzg(j0-1, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
       enddo
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index 9b5f419..e1367d4 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -470,7 +470,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
     ! l_lower_order_in_v is false
   ELSE
 
-    DO ip=1, np
+    DO ip=1, np, lvect
 
 #if defined __INTEL_COMPILER
       !!DIR$ IVDEP
@@ -1521,13 +1521,13 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx0(n, -1)*exg(j0-1, 1, l-1) + sx0(n, 0)*exg(j0, 1, l-1) + sx0(n,        &
         1)*exg(j0+1, 1, l-1) + sx0(n, 2)*exg(j0+2, 1, l-1))
         ex(nn) = ex(nn) + a*sz(n, -1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
+        a = (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
         1)*exg(j0+1, 1, l) + sx0(n, 2)*exg(j0+2, 1, l))
         ex(nn) = ex(nn) + a*sz(n, 0)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
         1)*exg(j0+1, 1, l+1) + sx0(n, 2)*exg(j0+2, 1, l+1))
         ex(nn) = ex(nn) + a*sz(n, 1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
         1)*exg(j0+1, 1, l+2) + sx0(n, 2)*exg(j0+2, 1, l+2))
         ex(nn) = ex(nn) + a*sz(n, 2)
 
@@ -1535,29 +1535,29 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx(n, -1)*eyg(j-1, 1, l-1) + sx(n, 0)*eyg(j, 1, l-1) + sx(n, 1)*eyg(j+1, &
         1, l-1) + sx(n, 2)*eyg(j+2, 1, l-1))
         ey(nn) = ey(nn) + a*sz(n, -1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
+        a = (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
         1, l) + sx(n, 2)*eyg(j+2, 1, l))
         ey(nn) = ey(nn) + a*sz(n, 0)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
         1)*eyg(j+1, 1, l+1) + sx(n, 2)*eyg(j+2, 1, l+1))
         ey(nn) = ey(nn) + a*sz(n, 1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
         1)*eyg(j+1, 1, l+2) + sx(n, 2)*eyg(j+2, 1, l+2))
         ey(nn) = ey(nn) + a*sz(n, 2)
 
         ! Compute Ez on particle
         a = (sx(n, -1)*ezg(j-1, 1, l0-1) + sx(n, 0)*ezg(j, 1, l0-1) + sx(n,           &
         1)*ezg(j+1, 1, l0-1) + sx(n, 2)*ezg(j+2, 1, l0-1))
-        ey(nn) = ey(nn) + a*sz0(n, -1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
+        ez(nn) = ez(nn) + a*sz0(n, -1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
         1)*ezg(j+1, 1, l0) + sx(n, 2)*ezg(j+2, 1, l0))
-        ey(nn) = ey(nn) + a*sz0(n, 0)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 0)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
         1)*ezg(j+1, 1, l0+1) + sx(n, 2)*ezg(j+2, 1, l0+1))
-        ey(nn) = ey(nn) + a*sz0(n, 1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
         1)*ezg(j+1, 1, l0+2) + sx(n, 2)*ezg(j+2, 1, l0+2))
-        ey(nn) = ey(nn) + a*sz0(n, 2)
+        ez(nn) = ez(nn) + a*sz0(n, 2)
 
 
         ! Compute Bx on particle
@@ -1591,16 +1591,16 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         ! Compute Bz on particle
         a = (sx0(n, -1)*bzg(j0-1, 1, l-1) + sx0(n, 0)*bzg(j0, 1, l-1) + sx0(n,        &
         1)*bzg(j0+1, 1, l-1) + sx0(n, 2)*bzg(j0+2, 1, l-1))
-        bx(nn) = bx(nn) + a*sz(n, -1)
+        bz(nn) = bz(nn) + a*sz(n, -1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l) + sx0(n, 0)*bzg(j0, 1, l) + sx0(n,            &
         1)*bzg(j0+1, 1, l) + sx0(n, 2)*bzg(j0+2, 1, l))
-        bx(nn) = bx(nn) + a*sz(n, 0)
+        bz(nn) = bz(nn) + a*sz(n, 0)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+1) + sx0(n, 0)*bzg(j0, 1, l+1) + sx0(n,        &
         1)*bzg(j0+1, 1, l+1) + sx0(n, 2)*bzg(j0+2, 1, l+1))
-        bx(nn) = bx(nn) + a*sz(n, 1)
+        bz(nn) = bz(nn) + a*sz(n, 1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+2) + sx0(n, 0)*bzg(j0, 1, l+2) + sx0(n,        &
         1)*bzg(j0+1, 1, l+2) + sx0(n, 2)*bzg(j0+2, 1, l+2))
-        bx(nn) = bx(nn) + a*sz(n, 2)
+        bz(nn) = bz(nn) + a*sz(n, 2)
       enddo
 #if defined _OPENMP && _OPENMP>=201307
       !$OMP END SIMD
-- 
2.43.0


From dd9e0f8168fd188340f4f52b0e822bf5b640d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:35 +0000
Subject: [PATCH 05/52] fix: B08 radiation reaction of a particle at rest is
 zero, not NaN

---
 src/particle_pushers/boris_pusher/boris_3d.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_pushers/boris_pusher/boris_3d.F90 b/src/particle_pushers/boris_pusher/boris_3d.F90
index 2378c18..15f8478 100644
--- a/src/particle_pushers/boris_pusher/boris_3d.F90
+++ b/src/particle_pushers/boris_pusher/boris_3d.F90
@@ -456,7 +456,8 @@ SUBROUTINE pxr_boris_push_rr_B08_u_3d(np, uxp, uyp, uzp, gaminv, ex, ey, ez, bx,
     crr=-(4_num*const*q**3*gamtmp)/(3_num*m**2*clight**5*4*pi*eps0)
     
     ! 'up' inverse square norm 
-    upinvsq=1_num/(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2)
+    ! (a particle at rest has no direction: keep the quotient below finite)
+    upinvsq=1_num/MAX(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2, TINY(1.0_num))
 
     ! E dot u / u square
     epar=upinvsq*(ex(ip)*uxp(ip)+ey(ip)*uyp(ip)+ez(ip)*uzp(ip))
-- 
2.43.0


From 15156509308a174224d6ed921c614490e3755720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:33 +0000
Subject: [PATCH 06/52] fix: absorbing and reinjecting particles at the upper
 sides of the last process

---
 src/parallelization/mpi/mpi_routines.F90 | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index 03b704b..bb76c0e 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1614,7 +1614,9 @@ ENDIF
 ! -- Xmax
 IF  ((pbound_x_max .EQ. 3) .OR. (pbound_x_max .EQ. 1)) THEN
   xmax_part=xmax+offset_grid_part_x_max
-  IF ((xmax_part .GE. x_min_local) .AND. (xmax_part .LT. x_max_local)) THEN
+  ! - The upper bound belongs to the process below it: the last process when no offset
+  IF ((xmax_part .GT. x_min_local) .AND. ((xmax_part .LE. x_max_local) .OR.    &
+  x_max_boundary)) THEN
     x_max_boundary_part= .TRUE.
     x_max_local_part = xmax_part
   ELSE
@@ -1644,7 +1646,9 @@ ENDIF
 ! -- Ymax
 IF  ((pbound_y_max .EQ. 3) .OR. (pbound_y_max .EQ. 1)) THEN
   ymax_part=ymax+offset_grid_part_y_max
-  IF ((ymax_part .GE. y_min_local) .AND. (ymax_part .LT. y_max_local)) THEN
+  ! - The upper bound belongs to the process below it: the last process when no offset
+  IF ((ymax_part .GT. y_min_local) .AND. ((ymax_part .LE. y_max_local) .OR.    &
+  y_max_boundary)) THEN
     y_max_boundary_part= .TRUE.
     y_max_local_part = ymax_part
   ELSE
@@ -1674,7 +1678,9 @@ ENDIF
 ! -- zmax
 IF  ((pbound_z_max .EQ. 3) .OR. (pbound_z_max .EQ. 1)) THEN
   zmax_part=zmax+offset_grid_part_z_max
-  IF ((zmax_part .GE. z_min_local) .AND. (zmax_part .LT. z_max_local)) THEN
+  ! - The upper bound belongs to the process below it: the last process when no offset
+  IF ((zmax_part .GT. z_min_local) .AND. ((zmax_part .LE. z_max_local) .OR.    &
+  z_max_boundary)) THEN
     z_max_boundary_part= .TRUE.
     z_max_local_part = zmax_part
   ELSE
-- 
2.43.0


From 9e77bd53644ad0d1925943b32c5991b16099810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:46 +0000
Subject: [PATCH 07/52] fix: a tile that is alone along an axis starts at the
 domain border, not half a cell below

---
 src/parallelization/tiling/tiling.F90 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index f291bbd..fc2f303 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -181,7 +181,8 @@ MODULE tiling
               curr%x_grid_tile_max=curr%x_grid_tile_min+curr%nx_cells_tile*dx
               curr%nx_tile_min = (ix-1)*nx0_grid_tile
               curr%nx_tile_max = curr%nx_tile_min+curr%nx_cells_tile
-              curr%x_tile_min= curr%x_grid_tile_min-dx/2.0_num
+              ! - A tile that is also the first one starts at the domain border
+              IF (ix .GT. 1) curr%x_tile_min= curr%x_grid_tile_min-dx/2.0_num
               curr%x_tile_max= xmaxlocal
             ENDIF
             !------------- Y- DIRECTION
@@ -216,7 +217,8 @@ MODULE tiling
               curr%y_grid_tile_max=curr%y_grid_tile_min+curr%ny_cells_tile*dy
               curr%ny_tile_min = (iy-1)*ny0_grid_tile
               curr%ny_tile_max = curr%ny_tile_min+curr%ny_cells_tile
-              curr%y_tile_min= curr%y_grid_tile_min-dy/2.0_num
+              ! - A tile that is also the first one starts at the domain border
+              IF (iy .GT. 1) curr%y_tile_min= curr%y_grid_tile_min-dy/2.0_num
               curr%y_tile_max= ymaxlocal
             ENDIF
             !------------- Z- DIRECTION
@@ -251,7 +253,8 @@ MODULE tiling
               curr%z_grid_tile_max=curr%z_grid_tile_min+curr%nz_cells_tile*dz
               curr%nz_tile_min = (iz-1)*nz0_grid_tile
               curr%nz_tile_max = curr%nz_tile_min+curr%nz_cells_tile
-              curr%z_tile_min= curr%z_grid_tile_min-dz/2.0_num
+              ! - A tile that is also the first one starts at the domain border
+              IF (iz .GT. 1) curr%z_tile_min= curr%z_grid_tile_min-dz/2.0_num
               curr%z_tile_max= zmaxlocal
             ENDIF
           END DO
-- 
2.43.0


From 33ca4696474aadcc23a55fd56b912260966dc2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:46 +0000
Subject: [PATCH 08/52] fix: particle boundaries inside a tile act in the
 merged tile and MPI exchange

---
 src/boundary_conditions/particle_boundaries.F90 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 7ef2eca..7d8e976 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2284,10 +2284,13 @@ DO is=1, nspecies
                 partpid=curr_tile%pid(i, 1:npid)
 
                 ! Case 1: if particle did not leave tile nothing to do
-                IF (((partx .GE. curr_tile%x_tile_min) .AND. (partx .LT.              &
-                curr_tile%x_tile_max)) .AND. ((party .GE. curr_tile%y_tile_min) .AND. &
-                (party .LT. curr_tile%y_tile_max)) .AND. ((partz .GE.                 &
-                curr_tile%z_tile_min) .AND. (partz .LT. curr_tile%z_tile_max))) CYCLE
+                ! (the particle domain can end inside a tile, see offset_grid_part_*)
+                IF (((partx .GE. MAX(curr_tile%x_tile_min, x_min_local_part)) .AND.   &
+                (partx .LT. MIN(curr_tile%x_tile_max, x_max_local_part))) .AND.       &
+                ((party .GE. MAX(curr_tile%y_tile_min, y_min_local_part)) .AND.       &
+                (party .LT. MIN(curr_tile%y_tile_max, y_max_local_part))) .AND.       &
+                ((partz .GE. MAX(curr_tile%z_tile_min, z_min_local_part)) .AND.       &
+                (partz .LT. MIN(curr_tile%z_tile_max, z_max_local_part)))) CYCLE
 
                 ! Case 2: if particle left MPI domain
                 IF (((partx .LT. x_min_local_part) .OR. (partx .GE.                   &
-- 
2.43.0


From 818dcf623cf892f780f4eb416c971b86b25e8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:29 +0000
Subject: [PATCH 09/52] fix: recreate the exchange's derived types when the
 array shape changes (guards of J differ from those of E and B)

---
 src/boundary_conditions/field_boundaries.F90 | 82 ++++++++------------
 src/modules/modules.F90                      |  2 +
 2 files changed, 36 insertions(+), 48 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 8fc75c0..14f0d5a 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -92,6 +92,28 @@ MODULE field_boundary
 
   END SUBROUTINE field_bc
 
+  ! ______________________________________________________________________________________
+  !> @brief
+  !> Creates the derived type mpi_dtypes(id) describing a sub-array, or creates it
+  !> again when the array it was created for had other dimensions
+  ! ______________________________________________________________________________________
+  SUBROUTINE set_exchange_dtype(id, basetype, subsizes, sizes, starts)
+    INTEGER(idp), INTENT(IN) :: id
+    INTEGER(isp), INTENT(IN) :: basetype
+    INTEGER(idp), DIMENSION(c_ndims), INTENT(IN) :: subsizes, sizes, starts
+
+    IF (.NOT. is_dtype_init(id)) THEN
+      IF (ALL(mpi_dtypes_sizes(1:3, id) .EQ. subsizes) .AND.                            &
+      ALL(mpi_dtypes_sizes(4:6, id) .EQ. sizes)) RETURN
+      CALL MPI_TYPE_FREE(mpi_dtypes(id), errcode)
+    ENDIF
+    mpi_dtypes(id) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
+    mpi_dtypes_sizes(1:3, id) = subsizes
+    mpi_dtypes_sizes(4:6, id) = sizes
+    is_dtype_init(id) = .FALSE.
+
+  END SUBROUTINE set_exchange_dtype
+
   ! ______________________________________________________________________________________
   !> @brief
   !> Routine exchanging guard regions between subdomains
@@ -139,10 +161,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(1)) THEN
-      mpi_dtypes(1) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(1) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(1_idp, basetype, subsizes, sizes, starts)
 
     ! MOVE EDGES ALONG X
     CALL MPI_SENDRECV(field(0, -nyg, -nzg), 1_isp, mpi_dtypes(1), INT(proc_x_min,     &
@@ -182,10 +201,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(2)) THEN
-      mpi_dtypes(2) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(2) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(2_idp, basetype, subsizes, sizes, starts)
 
     ! MOVE EDGES ALONG Y
     CALL MPI_SENDRECV(field(-nxg, 0, -nzg), 1_isp, mpi_dtypes(2), INT(proc_y_min,     &
@@ -226,10 +242,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(3)) THEN
-      mpi_dtypes(3) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(3) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(3_idp, basetype, subsizes, sizes, starts)
 
 
     ! MOVE EDGES ALONG Z
@@ -303,10 +316,7 @@ MODULE field_boundary
     subsizes(2) = sizes(2)
     subsizes(3) = sizes(3)
 
-    IF (is_dtype_init(4)) THEN
-      mpi_dtypes(4) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(4) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(4_idp, basetype, subsizes, sizes, starts)
 
     ! --- +X
     CALL MPI_ISEND(field(0, -nyg, -nzg), 1_isp, mpi_dtypes(4), INT(proc_x_min, isp),  &
@@ -333,10 +343,7 @@ MODULE field_boundary
       subsizes(2) = nyg+1
       subsizes(3) = sizes(3)
   
-      IF (is_dtype_init(5)) THEN
-        mpi_dtypes(5) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-        is_dtype_init(5) = .FALSE.
-      ENDIF
+      CALL set_exchange_dtype(5_idp, basetype, subsizes, sizes, starts)
   
       ! --- +Y
       CALL MPI_ISEND(field(-nxg, 0, -nzg), 1_isp, mpi_dtypes(5), INT(proc_y_min, isp),  &
@@ -363,10 +370,7 @@ MODULE field_boundary
   
     sz = subsizes(1) * subsizes(2) * subsizes(3)
   
-    IF (is_dtype_init(6)) THEN
-      mpi_dtypes(6) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(6) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(6_idp, basetype, subsizes, sizes, starts)
 
     ! --- +Z
     CALL MPI_ISEND(field(-nxg, -nyg, 0), 1_isp, mpi_dtypes(6), INT(proc_z_min, isp),  &
@@ -420,10 +424,7 @@ MODULE field_boundary
     subsizes(3) = sizes(3)
     nn =  nx_local
 
-    IF (is_dtype_init(7)) THEN
-      mpi_dtypes(7) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(7) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(7_idp, mpidbl, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -448,10 +449,7 @@ MODULE field_boundary
       subsizes(3) = sizes(3)
       nn =  ny_local
 
-      IF (is_dtype_init(8)) THEN
-        mpi_dtypes(8) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-        is_dtype_init(8) = .FALSE.
-      ENDIF
+      CALL set_exchange_dtype(8_idp, mpidbl, subsizes, sizes, starts)
 
       sz = subsizes(1) * subsizes(2) * subsizes(3)
       ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -476,10 +474,7 @@ MODULE field_boundary
     subsizes(3) = nzg+1
     nn =  nz_local
 
-    IF (is_dtype_init(9)) THEN
-      mpi_dtypes(9) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(9) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(9_idp, mpidbl, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -1151,10 +1146,7 @@ USE picsar_precision, ONLY: idp, isp, num
     subsizes(3) = sizes(3)
     nn = nx_local
 
-    IF (is_dtype_init(10)) THEN
-      mpi_dtypes(10) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(10) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(10_idp, mpidbl, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
@@ -1183,10 +1175,7 @@ USE picsar_precision, ONLY: idp, isp, num
       subsizes(3) = sizes(3)
       nn = ny_local
   
-      IF (is_dtype_init(11)) THEN
-        mpi_dtypes(11) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-        is_dtype_init(11) = .FALSE.
-      ENDIF
+      CALL set_exchange_dtype(11_idp, mpidbl, subsizes, sizes, starts)
   
       sz = subsizes(1) * subsizes(2) * subsizes(3)
       ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
@@ -1215,10 +1204,7 @@ USE picsar_precision, ONLY: idp, isp, num
     subsizes(3) = nzg+1
     nn = nz_local
 
-    IF (is_dtype_init(12)) THEN
-      mpi_dtypes(12) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(12) = .FALSE.
-    ENDIF
+    CALL set_exchange_dtype(12_idp, mpidbl, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
diff --git a/src/modules/modules.F90 b/src/modules/modules.F90
index 5c122a8..0441023 100755
--- a/src/modules/modules.F90
+++ b/src/modules/modules.F90
@@ -779,6 +779,8 @@ MODULE mpi_type_constants!#do not parse
   !> List of flags that tells if the corresponding derived type in
   !> mpi_dtypes has been initialized
   LOGICAL(lp), DIMENSION(100) :: is_dtype_init = .TRUE.
+  !> Sub-array and array sizes the derived types in mpi_dtypes were created for
+  INTEGER(idp), DIMENSION(6, 100) :: mpi_dtypes_sizes = 0
 END MODULE mpi_type_constants
 
 ! ________________________________________________________________________________________
-- 
2.43.0


From 8f855bba5af6b8ee5b41b2f75f4ff0c4c97e5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:19 +0000
Subject: [PATCH 10/52] fix: persistent current summation (mpicom_curr=2)
 passed an unallocated buffer to MPI_RECV_INIT and aborted

---
 src/boundary_conditions/field_boundaries.F90 | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 14f0d5a..9eda357 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -1285,11 +1285,6 @@ USE picsar_precision, ONLY: idp, isp, num
       call MPI_SEND_INIT(array(-nxg, -nyg, -nzg), 1_isp, subarrayx, proc_x_min_mpisp, &
       tag, comm, reqperjxx(3), errcode)
 
-      call MPI_RECV_INIT(temp1, sz, mpidbl, proc_x_min_mpisp, tag, comm,              &
-      reqperjxx(2), errcode)
-      call MPI_RECV_INIT(temp2, sz, mpidbl, proc_x_max_mpisp, tag, comm,              &
-      reqperjxx(4), errcode)
-
       ! Init Y
       subsizes(1) = sizes(1)
       subsizes(2) = nyg+1
-- 
2.43.0


From 41919bb596a86a0cfb5fb173b45517f4ec67d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:33 +0000
Subject: [PATCH 11/52] fix: sorting moves every property column of pid with
 the particle, not only the first

---
 src/housekeeping/sorting.F90 | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index 76ba2fc..d38ae69 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -107,7 +107,7 @@ MODULE sorting
     USE grid_tilemodule, ONLY: aofgrid_tiles, grid_tile
     USE mpi
     USE params, ONLY: it
-    USE particle_properties, ONLY: nspecies, wpid
+    USE particle_properties, ONLY: npid, nspecies
     USE particle_speciesmodule, ONLY: particle_species
     USE particle_tilemodule, ONLY: particle_tile
     USE particles, ONLY: species_parray
@@ -130,7 +130,7 @@ MODULE sorting
     REAL(num)                       :: sxmin, symin, szmin
 
     !$OMP PARALLEL DO COLLAPSE(3) SCHEDULE(runtime) DEFAULT(NONE) SHARED(ntilex,      &
-    !$OMP ntiley, ntilez, nspecies, species_parray, aofgrid_tiles, dx, dy, dz, it,    &
+    !$OMP ntiley, ntilez, nspecies, npid, species_parray, aofgrid_tiles, dx, dy, dz, it,    &
     !$OMP rank, sorting_shiftx, sorting_shifty, sorting_shiftz, sorting_dx,c_dim,     &
     !$OMP sorting_dy, sorting_dz, sorting_verbose) PRIVATE(ix, iy, iz, ispecies,      &
     !$OMP curr, curr_tile, currg, count, nxc, nyc, nzc, nxjg, nyjg, nzjg, isgathered, &
@@ -189,7 +189,8 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting(count, curr_tile%part_x,                &
                 curr_tile%part_y, curr_tile%part_z, curr_tile%part_ux,                &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,          &
-                curr_tile%pid, wpid, sxmin, symin, szmin, curr_tile%x_tile_max +      &
+                curr_tile%pid(1:count, 1:npid), npid, sxmin, symin, szmin,            &
+                curr_tile%x_tile_max +                                                &
                 sorting_dx, curr_tile%y_tile_max + sorting_dy, curr_tile%z_tile_max + &
                 sorting_dz, sorting_dx, sorting_dy, sorting_dz)
               ELSE
@@ -199,7 +200,8 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting_2d(count, curr_tile%part_x,              &
                 curr_tile%part_z, curr_tile%part_ux,                                   &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,           &
-                curr_tile%pid, wpid, sxmin,  szmin, curr_tile%x_tile_max +             &
+                curr_tile%pid(1:count, 1:npid), npid, sxmin, szmin,                    &
+                curr_tile%x_tile_max +                                                 &
                 sorting_dx                         ,curr_tile%z_tile_max +             &
                 sorting_dz, sorting_dx, sorting_dz)
 
@@ -238,7 +240,7 @@ END SUBROUTINE particle_sorting_sub
 !> @param[inout] ux, uy, uz particle momenta
 !> @param[inout] gam particle gamma factor
 !> @param[inout] pid particle id
-!> @param[inout] wpid particle weight
+!> @param[in] wpid number of property columns in pid
 !> @param[in] xmin2, ymin2, zmin2 minimum point position on the local grid
 !> @param[in] xmax2, ymax2, zmax2 maximum point position on the local grid
 !> @param[in] dxf, dyf, dzf bin space steps
@@ -261,7 +263,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp, yp, zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(np2, wpid), intent(inout)  :: pid
   real(num), dimension(np2)                     :: xps, yps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
@@ -378,7 +380,7 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp,  zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(np2, wpid), intent(inout)  :: pid
   real(num), dimension(np2)                     :: xps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
-- 
2.43.0


From a2605e54c11222724f0c9e3bd4ed34c8032a34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:33 +0000
Subject: [PATCH 12/52] fix: gather flags passed as LOGICAL(lp), not as default
 logicals (l4symtry was read past its end)

---
 src/particle_pushers/particle_pusher_manager_2d.F90 | 2 +-
 src/particle_pushers/particle_pusher_manager_3d.F90 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_2d.F90 b/src/particle_pushers/particle_pusher_manager_2d.F90
index 2c84958..d4f0e51 100644
--- a/src/particle_pushers/particle_pusher_manager_2d.F90
+++ b/src/particle_pushers/particle_pusher_manager_2d.F90
@@ -203,7 +203,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub_2d(exg, eyg, ezg, bxg, byg,
             curr_tile%z_grid_tile_min, dxx, dyy, dzz, curr_tile%nx_cells_tile,        &
             curr_tile%ny_cells_tile, curr_tile%nz_cells_tile, nxjg, 0_idp, nzjg, noxx,&
             noyy, nozz, extile, eytile, eztile, bxtile,                               &
-            bytile, bztile , .FALSE., .TRUE., LVEC_fieldgathe,                        &
+            bytile, bztile , .FALSE._lp, .TRUE._lp, LVEC_fieldgathe,                        &
             fieldgathe)
           END IF
 
diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index f46563e..ba71bf9 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -301,7 +301,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile, .FALSE., l_lower_order_in_v_in, LVEC_fieldgathe,                &
+              bztile, .FALSE._lp, l_lower_order_in_v_in, LVEC_fieldgathe,                &
               fieldgathe)
 
             CASE DEFAULT! 3D CASE
@@ -315,7 +315,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile , .FALSE., l_lower_order_in_v_in, lvec_fieldgathe,               &
+              bztile , .FALSE._lp, l_lower_order_in_v_in, lvec_fieldgathe,               &
               fieldgathe)
             END SELECT
 
-- 
2.43.0


From c0c1d5d176c5c6d9504d75dd87b1b1911abe9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:28 +0000
Subject: [PATCH 13/52] fix: threads add the guard cells of different tiles to
 the same nodes: guard the accumulation (data race)

---
 .../charge_deposition_manager.F90             | 30 +++++++
 .../current_deposition_manager_2d.F90         | 18 ++++
 .../current_deposition_manager_3d.F90         | 90 +++++++++++++++++++
 3 files changed, 138 insertions(+)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90 b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
index 434413a..11f2770 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
@@ -389,12 +389,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,          &
           -nzjg:nzc+nzjg)
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         ENDIF
       END DO
     END DO
@@ -432,10 +434,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -473,10 +477,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -646,12 +652,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,          &
           -nzjg:nzc+nzjg)
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         ENDIF
       END DO
     END DO
@@ -689,10 +697,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -730,10 +740,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -886,12 +898,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,          &
           -nzjg:nzc+nzjg)
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         ENDIF
       END DO
     END DO
@@ -929,10 +943,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -970,10 +986,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -1141,12 +1159,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,          &
           -nzjg:nzc+nzjg)
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         ENDIF
       END DO
     END DO
@@ -1184,10 +1204,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -1225,10 +1247,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -1396,12 +1420,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,          &
           -nzjg:nzc+nzjg)
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         ENDIF
       END DO
     END DO
@@ -1439,10 +1465,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
@@ -1480,10 +1508,12 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           ! ----- Add guardcells in adjacent tiles
           ! --- RHO
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_rho)
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_rho)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
index a7f951d..a921e37 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
@@ -611,28 +611,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -670,22 +676,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -723,22 +735,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
index 0f2b522..e1d3152 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
@@ -653,28 +653,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -712,22 +718,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -765,22 +777,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1015,28 +1033,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -1074,22 +1098,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1127,22 +1157,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1379,28 +1415,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -1438,22 +1480,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1491,22 +1539,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1675,28 +1729,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -1734,22 +1794,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1787,22 +1853,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -1965,28 +2037,34 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jxg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jxg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jyg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jyg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jyg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr2(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- X
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jzg(jminc:jmin-1,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(-nxjg:-1, -nyjg:nyc+nyjg,           &
           -nzjg:nzc+nzjg)
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         ENDIF
       END DO
     END DO
@@ -2024,22 +2102,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jxg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jxg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jyg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jyg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jyg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr2(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Y
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jzg(jmin:jmax, kminc:kmin-1,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
@@ -2077,22 +2161,28 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           ! ----- Add guardcells in adjacent tiles
           ! --- JX
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jx)
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           jxg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jxg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jx)
           ! --- JY
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jy)
           jyg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jyg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr2(0:nxc, 0:nyc, -nzjg:-1)
           jyg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jyg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr2(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jy)
           ! --- JZ
           ! - FACES +/- Z
+          !$OMP CRITICAL (add_guard_jz)
           jzg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jzg(jmin:jmax, kmin:kmax,         &
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guard_jz)
         END IF
       END DO
     END DO
-- 
2.43.0


From e7dee17706932b9ddf463188d36242928423a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 14/52] fix: order-3 vectorised direct deposition reaches three
 cells below the tile (staggered, half-step position)

---
 .../current_deposition_manager_3d.F90                  |  4 ++--
 .../direct/direct_current_deposition_3d.F90            | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
index e1d3152..fecd2ce 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
@@ -945,7 +945,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
         isdeposited=.FALSE.
 
         IF ((noxx.eq.3).and.(noyy.eq.3).and.(nozz.eq.3))  THEN
-          ncx=nxc+5; ncy=nyc+4; ncz=nzc+3
+          ncx=nxc+6; ncy=nyc+5; ncz=nzc+3
         ELSE IF ((noxx.eq.2).and.(noyy.eq.2).and.(nozz.eq.2)) THEN
           ! Originally was ncx=nxc+4; ncy=nyc+4; ncz=nzc+4
           ! But we need one more for the algorithm at order 2
@@ -1330,7 +1330,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           isdeposited=.FALSE.
 
           IF ((noxx.eq.3).and.(noyy.eq.3).and.(nozz.eq.3))  THEN
-            ncx=nxc+5; ncy=nyc+4; ncz=nzc+3
+            ncx=nxc+6; ncy=nyc+5; ncz=nzc+3
           ELSE IF ((noxx.eq.2).and.(noyy.eq.2).and.(nozz.eq.2)) THEN
             ! Originally was ncx=nxc+4; ncy=nyc+4; ncz=nzc+4
             ! But we need one more for the algorithm at order 2
diff --git a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90 b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
index 57b07ff..288db1a 100644
--- a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
+++ b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
@@ -3016,7 +3016,7 @@ SUBROUTINE depose_jxjyjz_vecHVv3_3_3_3( jx, jx_nguard, jx_nvalid, jy, jy_nguard,
   dts2dz = 0.5_num*dt*dzi
   clightsq = 1.0_num/clight**2
   ! Lower integer position where the particles can deposit
-  jorig=-2_idp; korig=-2_idp; lorig=-2_idp
+  jorig=-3_idp; korig=-3_idp; lorig=-2_idp
   ! Find the maximal number of cells in each direction, so as to
   ! allocate the linearized 1D arrays
   ncx = MAX( jx_nvalid(1), jy_nvalid(1), jz_nvalid(1) ) + 5
@@ -3507,8 +3507,8 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
   nnx = ngridx
   nnxy = ngridx*ngridy
-  jorig=-2_idp
-  korig=-2_idp
+  jorig=-3_idp
+  korig=-3_idp
   lorig=-2_idp
   orig=jorig+nxguard+nnx*(korig+nyguard)+(lorig+nzguard)*nnxy
   ngx=(ngridx-ncx)
@@ -4077,8 +4077,8 @@ SUBROUTINE current_reduction_3_3_3(jx, jy, jz, jxcells, jycells, jzcells, ncells
 
   moff = (/-nnxy, 0_isp, nnxy, 2_isp*nnxy, nnx-nnxy, nnx, nnx+nnxy, nnx+2_isp*nnxy/)
 
-  jorig=-2_isp
-  korig=-2_isp
+  jorig=-3_isp
+  korig=-3_isp
   lorig=-2_isp
 
   orig=jorig+nxguard+nnx*(korig+nyguard)+(lorig+nzguard)*nnxy
-- 
2.43.0


From b0eecefe31367607c91b493da87d46af71043f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:47 +0000
Subject: [PATCH 15/52] fix: order-2 2D Esirkepov kernel read uninitialised
 edge shape factors (sx0, sz0 at +-2)

---
 .../current_deposition/esirkepov/esirkepov_2d.F90               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 6dcd8e9..363eaaf 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -748,6 +748,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
     zint=z-ikxp0
 
     ! --- computes coefficients for node centered quantities
+    sx0 = 0.0_num
+    sz0 = 0.0_num
     xintsq = xint*xint
     sx0(-1) = 0.5_num*(0.5_num-xint)**2
     sx0( 0) = 0.75_num-xintsq
-- 
2.43.0


From f3cd4a0d440176fad193e016bad718b2638febc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 16/52] fix: particles were not pushed at all with unequal
 orders and the cache-blocking push (the default)

---
 src/particle_pushers/particle_pusher_manager_3d.F90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index ba71bf9..cbf42fd 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -77,14 +77,15 @@ SUBROUTINE field_gathering_plus_particle_pusher
   CASE DEFAULT
 
     ! The field gathering and the particle pusher are performed together
-    IF (fg_p_pp_separated.eq.0) THEN
+    ! (the cache-blocking kernels exist for equal orders only)
+    IF ((fg_p_pp_separated.eq.0).AND.(nox.eq.noy).AND.(noy.eq.noz)) THEN
 
       CALL field_gathering_plus_particle_pusher_cacheblock_sub(ex_p, ey_p, ez_p, &
       bx_p, by_p, bz_p, nx, ny, nz, nxguards, nyguards, nzguards,                &
       nxjguards, nyjguards, nzjguards, nox, noy, noz, dx, dy, dz, dt,            &
       l_lower_order_in_v)
 
-    ELSE IF (fg_p_pp_separated.eq.1) THEN
+    ELSE IF (fg_p_pp_separated.le.1) THEN
 
       CALL field_gathering_plus_particle_pusher_sub(ex_p, ey_p, ez_p, bx_p, by_p, bz_p, &
       nx, ny,   nz, nxguards, nyguards, nzguards, nxjguards, nyjguards, nzjguards,      &
-- 
2.43.0


From 8056e0dfc1cad3f1df7a1622efc63762f3ecbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 17/52] fix: 2D loop pushed the spectral fields with an
 uninitialised old charge density in the first step

---
 src/submain.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 3d440fc..4f7ad08 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -200,7 +200,8 @@ USE sorting
     ! ___________________________________________
     ! Loop in 2D
   ELSE IF (c_dim.eq.2) THEN
-
+    rhoold=0.0_num
+    rho = 0.0_num
     DO i=1, nst
       CALL begin_timestep
       IF (rank .EQ. 0) startit=MPI_WTIME()
-- 
2.43.0


From 74dfbf0ebfb921ef0fa864c87d0e580e431771a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:44 +0000
Subject: [PATCH 18/52] fix: finite-difference weights of the Maxwell solver
 were wrong beyond order 4 (Fornberg recursion updated only the last column)

---
 src/submain.F90 | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 4f7ad08..909e18e 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -974,12 +974,11 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
           c(k, i)=c1*(k*c(k-1, i-1)-c5*c(k, i-1))/c2
         END DO
         c(0, i)=-c1*c5*c(0, i-1)/c2
-        DO k=1, mn-1
-          c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
-        END DO
-        c(0, j)=c4*c(0, j)/c3
       END IF
-
+      DO k=1, mn-1
+        c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
+      END DO
+      c(0, j)=c4*c(0, j)/c3
     END DO
     c1=c2
   END DO
-- 
2.43.0


From b05c98f6f6d8d57d11618bce064fc0eeecc38597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 19/52] fix: nodal finite-difference weights were taken on
 points that are not symmetric around the node

---
 src/submain.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/submain.F90 b/src/submain.F90
index 909e18e..be4de58 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -958,6 +958,7 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
 
   DO i=0, n-1
     x(i)=(i-n/2+1)*1.0_num
+    IF (l_nodal) x(i)=(i-n/2)*1.0_num
   END DO
 
   c=0.0_num; c1=1.0_num; c4=x(0)-z; c(0, 0)=1.0_num
@@ -985,6 +986,7 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
 
   DO i=1, norder/2
     coeffs(i)=c(m, norder/2+i-1)
+    IF (l_nodal) coeffs(i)=c(m, norder/2+i)
   END DO
   RETURN
 END SUBROUTINE FD_weights
-- 
2.43.0


From 6df3c4adf4b74ffa4f83630d483757ef01a42b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 20/52] fix: lookup tables read past their last node

Interpolation at the last coordinate (which the quantum synchrotron engine
asks for whenever chi is above the table) took the interval starting at the
last node, and read one element past the coordinates and the data.
---
 src/multi_physics/QED/src/lookup_tables.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 63f56d1..2898cd6 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -318,6 +318,9 @@ interp_linear_equispaced(_REAL where) const
 
     size_t idx_left = static_cast<size_t>(
         floor((coords.size()-1)*(where-xmin)/xsize));
+    //The last node belongs to the last interval
+    if(idx_left > coords.size()-2)
+        idx_left = coords.size()-2;
     size_t idx_right = idx_left + 1;
 
     _REAL xleft = coords[idx_left];
@@ -337,6 +340,9 @@ interp_linear(_REAL where) const
 {
     auto iter_right = picsar_upper_bound(coords.begin(), coords.end(),where);
     size_t idx_right = std::distance(coords.begin(), iter_right);
+    //The last node belongs to the last interval
+    if(idx_right > coords.size()-1)
+        idx_right = coords.size()-1;
     size_t idx_left = idx_right-1;
 
     _REAL xleft = coords[idx_left];
@@ -541,6 +547,11 @@ interp_linear(_REAL where_x, _REAL where_y) const
         picsar_upper_bound(coords[1].begin(), coords[1].end(),where_y);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_y_right = std::distance(coords[1].begin(), it_y_right);
+    //The last node belongs to the last interval
+    if(idx_x_right > coords[0].size()-1)
+        idx_x_right = coords[0].size()-1;
+    if(idx_y_right > coords[1].size()-1)
+        idx_y_right = coords[1].size()-1;
     size_t idx_x_left = idx_x_right - 1;
     size_t idx_y_left = idx_y_right - 1;
 
@@ -585,10 +596,15 @@ interp_linear_equispaced(_REAL where_x, _REAL where_y) const
 
     size_t idx_x_left = static_cast<size_t>(
         floor((coords[0].size()-1)*(where_x-xmin)/xsize));
+    //The last node belongs to the last interval
+    if(idx_x_left > coords[0].size()-2)
+        idx_x_left = coords[0].size()-2;
     size_t idx_x_right = idx_x_left + 1;
 
     size_t idx_y_left = static_cast<size_t>(
         floor((coords[1].size()-1)*(where_y-ymin)/ysize));
+    if(idx_y_left > coords[1].size()-2)
+        idx_y_left = coords[1].size()-2;
     size_t idx_y_right = idx_y_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -629,6 +645,9 @@ interp_linear_first(_REAL where_x, size_t coord_y) const
     auto it_x_right =
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
+    //The last node belongs to the last interval
+    if(idx_x_right > coords[0].size()-1)
+        idx_x_right = coords[0].size()-1;
     size_t idx_x_left = idx_x_right - 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -672,6 +691,9 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
 
     size_t idx_x_left = static_cast<size_t>(
             floor((sx-1)*(where_x-xmin)/xsize));
+    //Rounding may select the last node, which belongs to the last interval
+    if(idx_x_left > sx-2)
+        idx_x_left = sx-2;
     size_t idx_x_right = idx_x_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From 32c289c83f1f48544cdda0d3e01815817cdbd5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 21/52] fix: picsar_vector::back() returned the first element

The non-const overload returned v_data[0].
---
 src/multi_physics/QED/src/picsar_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 025982c..7075d47 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -347,7 +347,7 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 T&
 picsar::multi_physics::picsar_vector<T>::back()
 {
-    return v_data[0];
+    return v_data[v_size-1];
 }
 
 template <typename T>
-- 
2.43.0


From b3b15044fbcec8e03172068e15c779c0abfb03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 22/52] fix: picsar_vector assignment leaked the old elements
 and broke self-assignment

Neither assignment operator released the memory it owned; assigning a vector
to itself copied uninitialised memory (copy) or emptied it (move).
---
 src/multi_physics/QED/src/picsar_vector.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 7075d47..948cb98 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -213,11 +213,18 @@ template <typename T>
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (const picsar_vector& other)
 {
-    v_size = other.v_size;
+    if(this == &other)
+        return *this;
 
-    v_data = new T[other.v_size];
-    for(size_t i = 0; i < v_size; i++)
-        v_data[i] = other.v_data[i];
+    T* new_data = new T[other.v_size];
+    for(size_t i = 0; i < other.v_size; i++)
+        new_data[i] = other.v_data[i];
+
+    if(should_manage_memory)
+        delete[] v_data;
+
+    v_size = other.v_size;
+    v_data = new_data;
 
     should_manage_memory = true;
 
@@ -231,6 +238,12 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (picsar_vector&& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
     v_data = other.v_data;
     should_manage_memory = other.should_manage_memory;
-- 
2.43.0


From cb880b0826e8ec50535f15f30400bbcecf6367b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 23/52] fix: generate_log_lin_log_spaced_vec for sizes that are
 not multiples of 3

The last part holds the remainder as well; its spacing was computed for
size/3 points, so that the points after max were 0 or above max.
---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 795632c..9c13588 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -115,7 +115,7 @@ picsar::multi_physics::generate_log_lin_log_spaced_vec
     std::vector<_REAL> vec(size);
     size_t size_first = size/3;
     size_t size_second = size/3;
-    size_t size_third = size/3;
+    size_t size_third = size - size_first - size_second;
 
     _REAL first_val = max*static_cast<_REAL>(1.0/10.0);
     _REAL second_val = max*static_cast<_REAL>(9.0/10.0);
-- 
2.43.0


From 1f403feb1780f1e3f347c026fd373a11d2e1a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 24/52] fix: generate_log_spaced_vec accepted min = 0 and
 returned NaN

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 9c13588..a2eab7f 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -70,7 +70,7 @@ picsar::multi_physics::generate_log_spaced_vec
 {
     //Return empty vector upon error
     if( min >= max ||
-        min < static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
+        min <= static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
         size < 2)
         return std::vector<_REAL>(0);
 
-- 
2.43.0


From f2a5dd7f7440950443554250446585177aed78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 25/52] fix: Schwinger engine's pair generation did not compile

generate_pairs_single and generate_pairs_multiple did not hand the cell size
to the internal functions.
---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 45e5a7a..c82f7fe 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -218,7 +218,7 @@ _REAL dt
 {
     std::pair<bool, _REAL> res{false, zero};
 
-    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
@@ -276,7 +276,7 @@ _REAL dt
 {
     std::pair<size_t, _REAL> res{0, zero};
 
-    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
-- 
2.43.0


From 906f08457302760b0476f96882912c3c283404e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:27 +0000
Subject: [PATCH 26/52] fix: Schwinger rate NaN for weak fields and inaccurate
 for magnetically dominated ones

inner - |ff| was computed as a difference: it loses all its digits when one
invariant dominates, and when ff*ff underflows it is the square root of a
negative number.
---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index c82f7fe..23e7aa3 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -372,8 +372,17 @@ _REAL _lambda
 
     _REAL inner = sqrt(ff*ff+ gg*gg);
 
-    _REAL epsi = sqrt(inner + ff);
-    _REAL eta = sqrt(inner - ff);
+    //The smaller of the two is obtained from epsi*eta = |gg|, since the
+    //difference inner - |ff| is inaccurate, and may even be negative
+    _REAL epsi, eta;
+    if(ff >= zero){
+        epsi = sqrt(inner + ff);
+        eta = (epsi != zero) ? static_cast<_REAL>(fabs(gg)/epsi) : zero;
+    }
+    else{
+        eta = sqrt(inner - ff);
+        epsi = fabs(gg)/eta;
+    }
 
     _REAL res;
 
-- 
2.43.0


From 20c9734e7d1f01912291102690fc69bfe03ceecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:27 +0000
Subject: [PATCH 27/52] fix: Schwinger rate in normalized units ignored lambda
 in the field invariants

The Schwinger field is __schwinger*lambda in these units (as in
chi_functions.hpp); without lambda the rate was always 0.
---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 23e7aa3..c04ed91 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -364,8 +364,11 @@ _REAL _lambda
     vec3<_REAL> ee{ex,ey,ez};
     vec3<_REAL> bb{bx,by,bz};
 
-    const _REAL c_ff = static_cast<_REAL>(one/(two*__schwinger*__schwinger));
-    const _REAL c_gg = static_cast<_REAL>(__c/__schwinger/__schwinger);
+    //In normalized units the Schwinger field is proportional to lambda
+    const double schwinger = __schwinger*_lambda;
+
+    const _REAL c_ff = static_cast<_REAL>(one/(two*schwinger*schwinger));
+    const _REAL c_gg = static_cast<_REAL>(__c/schwinger/schwinger);
 
     _REAL ff = (norm2(ee) - static_cast<_REAL>(__c*__c)*norm2(bb))*c_ff;
     _REAL gg = dot(ee, bb)*c_gg;
-- 
2.43.0


From 7720ae6181be82ad62c0ade38255978962b2a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:12 +0000
Subject: [PATCH 28/52] fix: Schwinger rate in single precision and SI units
 was NaN or infinite

The coefficient of the rate (about 1e58) is above the range of single
precision; the rate itself is computed in double precision now.
---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index c04ed91..e9b0290 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -387,7 +387,9 @@ _REAL _lambda
         epsi = fabs(gg)/eta;
     }
 
-    _REAL res;
+    //Double precision is needed here: in SI units __schwinger_coeff exceeds
+    //the range of single precision
+    double res;
 
     if(epsi != zero && eta != zero)
         res = epsi*eta*exp(-pi/epsi)/tanh(pi*eta/epsi);
@@ -396,10 +398,11 @@ _REAL _lambda
     else
         res = epsi*epsi*exp(-pi/epsi)/pi;
 
-    _REAL schwinger_coeff =
-        static_cast<_REAL>(__schwinger_coeff)*_lambda*_lambda*_lambda*_lambda;
+    const double d_lambda = _lambda;
+    const double schwinger_coeff =
+        __schwinger_coeff*d_lambda*d_lambda*d_lambda*d_lambda;
 
-    return schwinger_coeff*res;
+    return static_cast<_REAL>(schwinger_coeff*res);
 }
 
 #endif //__PICSAR_MULTIPHYSICS_SCHWINGER_PAIR_ENGINE__
-- 
2.43.0


From 7d34fda2bcd9c7cfa05923fcc329df11f8c4b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 29/52] fix: modified Bessel function threw for very large
 arguments instead of returning 0

---
 src/multi_physics/QED/src/special_functions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multi_physics/QED/src/special_functions.hpp b/src/multi_physics/QED/src/special_functions.hpp
index eec1124..4649bf9 100644
--- a/src/multi_physics/QED/src/special_functions.hpp
+++ b/src/multi_physics/QED/src/special_functions.hpp
@@ -54,6 +54,10 @@ namespace picsar{
 template<typename _REAL_ARG1, typename _REAL_ARG2>
 auto picsar::multi_physics::k_v(_REAL_ARG1 v, _REAL_ARG2 x)
 {
+    //The library function throws for very large arguments, where the result
+    //is zero in any floating-point type
+    if(x > 1e5 && x > v*v)
+        return decltype(std::cyl_bessel_k(v, x)){0};
     return std::cyl_bessel_k(v, x);
 }
 
-- 
2.43.0


From b2df1dbe11ecacb991ee13fbc143fc1368732585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 30/52] fix: Breit-Wheeler engine did not compile in single
 precision

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 35b0873..85ce180 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -935,7 +935,7 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::breit_wheeler_engine<_REAL, _RNDWRAP>::
 compute_inner_integral(_REAL x) const
 {
-    auto func = [=](_REAL s){
+    auto func = [=](_REAL s) -> _REAL {
         if (s >= static_cast<_REAL>(__breit_wheeler_special_func_big_arg))
             return zero;
         return sqrt(s)*k_v(one/three, two*pow(s, three/two)/three);
-- 
2.43.0


From db926d08e5082ca93ce656ded6c5d1db14602a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 31/52] fix: quantum synchrotron rate and photon spectrum were
 off by 5 % to a factor 2 (quadrature across the singularity)

---
 .../QED/src/quantum_sync_engine.hpp           | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index 2ceb57f..651d97d 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -282,6 +282,9 @@ namespace picsar{
          PXRMP_FORCE_INLINE
          _REAL compute_KK_integrand(_REAL chi_part, _REAL chi_phot) const;
 
+         PXRMP_FORCE_INLINE
+         _REAL compute_KK_integral(_REAL chi_part, _REAL chi_phot) const;
+
          PXRMP_FORCE_INLINE
          _REAL compute_KK_function(_REAL chi_part) const;
 
@@ -655,16 +658,7 @@ _REAL
 picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_cumulative_phot_em(_REAL chi_phot, _REAL chi_part) const
 {
-    auto func = [chi_part, this](_REAL __chi_phot){
-
-        if(chi_part - __chi_phot == zero || __chi_phot == zero)
-            return zero;
-        else{
-            return compute_KK_integrand(chi_part, __chi_phot);
-        }
-
-    };
-    _REAL num = quad_a_b<_REAL>(func, zero, chi_phot/two) + quad_a_b<_REAL>(func, chi_phot/two, chi_phot);
+    _REAL num = compute_KK_integral(chi_part, chi_phot);
     _REAL kk = compute_KK_function(chi_part);
     if(num >= kk)
         return one;
@@ -901,13 +895,15 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_inner_integral(_REAL y) const
 {
-    auto func = [this](_REAL s){
+    //The integral of K_5/3 is 2*K_2/3 minus the integral of K_1/3, which is
+    //much less singular in zero
+    auto func = [](_REAL s) -> _REAL {
         if( s > static_cast<_REAL>(__quantum_synchrotron_special_func_big_arg))
             return zero;
-        return k_v(five/three, s);
+        return k_v(one/three, s);
     };
 
-    return quad_a_b<_REAL>(func, y, two*y) + quad_a_inf<_REAL>(func, two*y);
+    return two*k_v(two/three, y) - quad_a_inf<_REAL>(func, y);
 }
 
 template<typename _REAL, class _RNDWRAP>
@@ -929,18 +925,30 @@ compute_KK_integrand(_REAL chi_part, _REAL chi_phot) const
     return (inner + part_2)*coeff;
 }
 
+//Integral of the photon emission rate up to chi_phot
 template<typename _REAL, class _RNDWRAP>
 PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
-compute_KK_function(_REAL chi_part) const
+compute_KK_integral(_REAL chi_part, _REAL chi_phot) const
 {
-
-    auto func = [chi_part, this](_REAL chi_phot){
-            return compute_KK_integrand(chi_part, chi_phot);
+    //The integrand diverges as chi^(-2/3) in zero and, if chi_part is small,
+    //is concentrated close to zero. The integration variable t, with
+    //chi = chi_phot*t^6, takes care of both.
+    auto func = [chi_part, chi_phot, this](_REAL t) -> _REAL {
+            const _REAL t3 = t*t*t;
+            return static_cast<_REAL>(6.0)*chi_phot*t3*t*t*
+                compute_KK_integrand(chi_part, chi_phot*t3*t3);
     };
 
-    //The integral is split into two parts to  handle singularities better
-    return quad_a_b<_REAL>(func, zero, chi_part/two) + quad_a_b<_REAL>(func, chi_part/two, chi_part);
+    return quad_a_b<_REAL>(func, zero, one);
+}
+
+template<typename _REAL, class _RNDWRAP>
+PXRMP_FORCE_INLINE
+_REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
+compute_KK_function(_REAL chi_part) const
+{
+    return compute_KK_integral(chi_part, chi_part);
 }
 
 #endif //PXRMP_CORE_ONLY
-- 
2.43.0


From e85fe623d3668181421d372da9d9f16487e3fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:51 +0000
Subject: [PATCH 32/52] fix: Breit-Wheeler tables held infinities, pair
 generation searched past the table and returned NaN momenta

---
 .../QED/src/breit_wheeler_engine.hpp          | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 85ce180..8ff8e35 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -271,6 +271,15 @@ namespace picsar{
         //lookup table for the cumulativie distribution table
         lookup_2d<_REAL> cum_distrib_table;
 
+        //Logarithm to be stored in the tables. The smallest number stands for
+        //values which are zero or underflow, since infinities can't be
+        //interpolated
+        PXRMP_FORCE_INLINE
+        static _REAL finite_log(_REAL val)
+        {
+            return log(std::max(val, std::numeric_limits<_REAL>::min()));
+        }
+
         //Internal functions to perform calculations
         PXRMP_FORCE_INLINE
         _REAL compute_x(_REAL chi_phot, _REAL chi_ele) const;
@@ -469,10 +478,12 @@ const _REAL* unf_zero_one_minus_epsi)
             invert = true;
         }
 
-        size_t first = 0;
+        //The first column stands for 0 and the last one for 1/2, so that
+        //the search is limited to the columns in between
+        size_t first = 1;
         size_t it;
         _REAL val;
-        size_t count = how_many_frac;
+        size_t count = how_many_frac-2;
         while(count > 0){
             it = first;
             size_t step = count/2;
@@ -497,7 +508,7 @@ const _REAL* unf_zero_one_minus_epsi)
         _REAL upper_prob =
             exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), upper));
-        _REAL lower_prob =
+        _REAL lower_prob = (lower == 0) ? zero :
             exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), lower));
         _REAL chi_ele_frac = lower_frac +
@@ -650,7 +661,7 @@ compute_dN_dt_lookup_table(std::ostream* stream)
     //The table will store the logarithms
     auto logfun = [](_REAL val){return log(val);};
     std::transform(TT_coords.begin(), TT_coords.end(), TT_coords.begin(), logfun);
-    std::transform(TT_vals.begin(), TT_vals.end(), TT_vals.begin(), logfun);
+    std::transform(TT_vals.begin(), TT_vals.end(), TT_vals.begin(), finite_log);
 
     TTfunc_table = lookup_1d<_REAL>{TT_coords, TT_vals};
 }
@@ -715,7 +726,9 @@ compute_cumulative_pair(_REAL chi_phot, _REAL chi_part) const
         return compute_TT_integrand(chi_phot, _chi_part);
     };
    _REAL num = quad_a_b<_REAL>(func, zero, chi_part);
-   return num/compute_TT_function(chi_phot) ;
+   _REAL den = compute_TT_function(chi_phot);
+   //The rate underflows if chi_phot is very small
+   return (den == zero) ? zero : num/den;
 }
 
 template<typename _REAL, class _RNDWRAP>
@@ -753,7 +766,7 @@ compute_cumulative_pair_table (std::ostream* stream)
     //The table will store the logarithms
     auto logfun = [](_REAL val){return log(val);};
     std::transform(chi_coords.begin(), chi_coords.end(), chi_coords.begin(), logfun);
-    std::transform(pair_vals.begin(), pair_vals.end(), pair_vals.begin(), logfun);
+    std::transform(pair_vals.begin(), pair_vals.end(), pair_vals.begin(), finite_log);
 
     cum_distrib_table = lookup_2d<_REAL>{
         picsar_array<picsar_vector<_REAL>,2>{chi_coords, frac_coords}, pair_vals};
-- 
2.43.0


From b3afad20bd6d59baad4a8234638cde8b27a51a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:24 +0000
Subject: [PATCH 33/52] fix: Breit-Wheeler rate above the table was 25 % too
 low (asymptotic form of the squared Bessel function not squared)

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 8ff8e35..aa27fa6 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -353,7 +353,8 @@ _REAL _lambda)
     else if(chi_phot >= ref_bw_ctrl.chi_phot_tdndt_max){
         //Not suitable for GPU! Replaced with asymptotic expansion.
         //TT = a*chi_phot*pow(k_v(one/three, b/chi_phot),two);
-        _REAL ccoeff = static_cast<_REAL>(tgamma(one/three)/two);
+        _REAL ccoeff = static_cast<_REAL>(tgamma(one/three)*tgamma(one/three)/
+            (two*two));
         TT = a*chi_phot*ccoeff*pow(chi_phot*two/b , two/three);
 
     }
-- 
2.43.0


From 0a5f97bc29ceadcbdbe46c085bd3fc8f4f6d7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 34/52] fix: tables read from a missing, truncated or damaged
 file were taken as initialised (uninitialised sizes and contents)

---
 src/multi_physics/QED/src/lookup_tables.hpp | 102 +++++++++++++-------
 1 file changed, 65 insertions(+), 37 deletions(-)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 2898cd6..98ece45 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -8,6 +8,7 @@
 #ifndef PXRMP_CORE_ONLY
     #include<iostream>
     #include<fstream>
+    #include<vector>
 #endif //PXRMP_CORE_ONLY
 
 //Should be included by all the src files of the library
@@ -27,6 +28,14 @@
 namespace picsar{
     namespace multi_physics{
 
+#ifndef PXRMP_CORE_ONLY
+        //Reads a vector written by write_on_stream_bin of the tables.
+        //Returns false if the stream does not hold all its elements
+        template<typename _REAL>
+        bool read_vector_from_stream_bin(
+            std::ifstream& in, picsar_vector<_REAL>& vec);
+#endif //PXRMP_CORE_ONLY
+
         //1D lookup table
         template<typename _REAL>
         class lookup_1d
@@ -206,6 +215,38 @@ namespace picsar{
 
 //############################################### Implementation
 
+#ifndef PXRMP_CORE_ONLY
+
+//Reads the size of a vector and its elements from a stream. It returns false
+//if the stream does not hold all of them (memory is allocated only as the
+//elements are actually found).
+template<typename _REAL>
+bool
+picsar::multi_physics::read_vector_from_stream_bin(
+std::ifstream& in, picsar_vector<_REAL>& vec)
+{
+    const size_t max_block = 65536;
+
+    size_t size = 0;
+    if(!in.read (reinterpret_cast<char*>(&size), sizeof(size)))
+        return false;
+
+    std::vector<_REAL> temp;
+    while(temp.size() < size){
+        const size_t done = temp.size();
+        const size_t block = (size - done < max_block) ? size - done : max_block;
+        temp.resize(done + block);
+        if(!in.read (
+            reinterpret_cast<char*>(temp.data() + done), sizeof(_REAL)*block))
+            return false;
+    }
+
+    vec = picsar_vector<_REAL>(temp);
+    return true;
+}
+
+#endif //PXRMP_CORE_ONLY
+
 //_______________________1D table_______________________________
 
 //Empty Constructor
@@ -362,21 +403,16 @@ void
 picsar::multi_physics::lookup_1d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
-    size_t size_coords;
-    in.read (
-        reinterpret_cast<char*>(&size_coords), sizeof(size_coords));
-    coords.resize(size_coords);
-    in.read (
-        reinterpret_cast<char*>(coords.data()), sizeof(_REAL)*size_coords);
-
-    size_t size_data;
-    in.read (
-        reinterpret_cast<char*>(&size_data), sizeof(size_data));
-    data.resize(size_data);
-    in.read (
-        reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
-
-        init_flag = true;
+    init_flag =
+        read_vector_from_stream_bin(in, coords) &&
+        read_vector_from_stream_bin(in, data) &&
+        coords.size() >= 2 && data.size() == coords.size();
+
+    //A missing, truncated or inconsistent table is not usable
+    if(!init_flag){
+        coords = picsar_vector<_REAL>{};
+        data = picsar_vector<_REAL>{};
+    }
 }
 
 
@@ -718,28 +754,20 @@ void
 picsar::multi_physics::lookup_2d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
-    size_t size_coords_0;
-    in.read (
-        reinterpret_cast<char*>(&size_coords_0), sizeof(size_coords_0));
-    coords[0].resize(size_coords_0);
-    in.read (
-        reinterpret_cast<char*>(coords[0].data()), sizeof(_REAL)*size_coords_0);
-
-    size_t size_coords_1;
-    in.read (
-        reinterpret_cast<char*>(&size_coords_1), sizeof(size_coords_1));
-    coords[1].resize(size_coords_1);
-    in.read (
-        reinterpret_cast<char*>(coords[1].data()), sizeof(_REAL)*size_coords_1);
-
-    size_t size_data;
-    in.read (
-        reinterpret_cast<char*>(&size_data), sizeof(size_data));
-    data.resize(size_data);
-    in.read (
-        reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
-
-        init_flag = true;
+    init_flag =
+        read_vector_from_stream_bin(in, coords[0]) &&
+        read_vector_from_stream_bin(in, coords[1]) &&
+        read_vector_from_stream_bin(in, data) &&
+        coords[0].size() >= 2 && coords[1].size() >= 2 &&
+        data.size()/coords[0].size() == coords[1].size() &&
+        data.size()%coords[0].size() == 0;
+
+    //A missing, truncated or inconsistent table is not usable
+    if(!init_flag){
+        coords[0] = picsar_vector<_REAL>{};
+        coords[1] = picsar_vector<_REAL>{};
+        data = picsar_vector<_REAL>{};
+    }
 }
 
 //Write table to stream
-- 
2.43.0


From 8a74ce2801a0d5221f629fd75f33519ce5a8f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 35/52] fix: sort particles at or beyond the sorting-grid
 border into the nearest bin

A positive sorting shift (or rounding) sent such particles to bins outside the
counters and wrote out of bounds.
---
 src/housekeeping/sorting.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index d38ae69..f9c511d 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -298,9 +298,10 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
     y2 = (yp(ip)-ymin2)*dyi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iy = floor(y2)
-    iz = floor(z2)
+    ! Particles outside the bins (positive shift, rounding) go to the nearest one
+    ix = MIN(MAX(floor(x2, idp), 0_idp), nx3-1_idp)
+    iy = MIN(MAX(floor(y2, idp), 0_idp), ny3-1_idp)
+    iz = MIN(MAX(floor(z2, idp), 0_idp), nz3-1_idp)
 
     ! Bin id
     hcnb(ip) = iz*nx3*ny3 + iy*nx3 + ix+1
@@ -412,8 +413,9 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
     x2 = (xp(ip)-xmin2)*dxi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iz = floor(z2)
+    ! Particles outside the bins (positive shift, rounding) go to the nearest one
+    ix = MIN(MAX(floor(x2, idp), 0_idp), nx3-1_idp)
+    iz = MIN(MAX(floor(z2, idp), 0_idp), nz3-1_idp)
 
     ! Bin id
     hcnb(ip) = iz*nx3 +  ix+1
-- 
2.43.0


From ab503a09461f43f711c89cea25b963ebe74ed059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 36/52] fix: end the temporal section at end::temporal

The end marker was not recognised, so every section after temporal was swallowed.
---
 src/initialization/control_file.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 6b828ab..b947cde 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -1305,6 +1305,8 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'divE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(10)
+      ELSE IF (INDEX(buffer, 'end::temporal') .GT. 0) THEN
+        end_section =.TRUE.
       ENDIF
     ENDDO
     RETURN
-- 
2.43.0


From 03d3363d6e49c973cd4c2162861dfef354979266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 37/52] fix: write every selected particle once in particle
 dumps

The selection mask was filled from its start for every tile, its size did not
follow the number of local particles, and all ranks wrote at the same offsets.
---
 src/ios/simple_io.F90 | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2b8e70b..36cf4e1 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -599,6 +599,7 @@ END SUBROUTINE write_single_array_to_file
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE write_particles_to_file
+  USE diagnostics, ONLY: get_local_number_of_particles_from_species
   USE mpi
   USE params, ONLY: it
   USE particle_speciesmodule, ONLY: particle_species
@@ -608,7 +609,8 @@ SUBROUTINE write_particles_to_file
 
   REAL(num), ALLOCATABLE, DIMENSION(:)    :: arr
   LOGICAL(lp), ALLOCATABLE, DIMENSION(:) :: mask
-  INTEGER(idp)                            :: narr, idump, ncurr, ndump
+  INTEGER(idp)                            :: narr, idump, ncurr, ndump, nbefore
+  INTEGER(idp), DIMENSION(1)              :: nloc
   INTEGER(isp)                            :: fh
   INTEGER(idp)                            :: offset
   TYPE(particle_species), POINTER         :: curr
@@ -632,7 +634,8 @@ SUBROUTINE write_particles_to_file
     tmptime = MPI_WTIME()
 
     curr => species_parray(dp%ispecies)
-    narr = curr%species_npart
+    CALL get_local_number_of_particles_from_species(dp%ispecies, nloc)
+    narr = nloc(1)
 
     ! GET TOTAL NUMBER OF PART TO DUMP
     ALLOCATE(mask(narr))
@@ -640,6 +643,11 @@ SUBROUTINE write_particles_to_file
 
     CALL MPI_ALLREDUCE(ndump, ncurr, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
 
+    ! GET NUMBER OF PART DUMPED BY THE PROCESSES BEFORE THIS ONE
+    nbefore = 0
+    CALL MPI_EXSCAN(ndump, nbefore, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
+    IF (rank .EQ. 0) nbefore = 0
+
     ! OPENING INPUT FILE
     CALL MPI_FILE_OPEN(comm, TRIM('./RESULTS/'//TRIM(ADJUSTL(curr%name))//'_it_'//    &
     TRIM(ADJUSTL(strit))), MPI_MODE_CREATE + MPI_MODE_WRONLY, MPI_INFO_NULL, fh,      &
@@ -648,36 +656,36 @@ SUBROUTINE write_particles_to_file
     ALLOCATE(arr(ndump))
 
     ! WRITE - X
-    offset = 0
+    offset = nbefore * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 1_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Y
 
-    offset = offset + ndump* SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 2_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Z
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 3_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Ux
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 4_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uy
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 5_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uz
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 6_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Weight
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 7_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
@@ -718,12 +726,13 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
   INTEGER(idp), INTENT(IN) :: idump, narr
   INTEGER(idp), INTENT(IN OUT) :: ndump
   LOGICAL(lp), DIMENSION(narr), INTENT(IN OUT) :: mask
-  INTEGER(idp) :: ix, iy, iz, count, ip
+  INTEGER(idp) :: ix, iy, iz, count, ip, np
   TYPE(particle_species), POINTER :: curr
   TYPE(particle_dump), POINTER :: dp
   TYPE(particle_tile), POINTER :: curr_tile
   REAL(num) :: partx, party, partz, partux, partuy, partuz
   ndump = 0
+  np = 0
   mask = .FALSE.
 
   dp => particle_dumps(idump)
@@ -750,9 +759,10 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
             dp%dump_uy_min) .AND. (partuy .LT. dp%dump_uy_max) .AND. (partuz .GT.     &
             dp%dump_uz_min) .AND. (partuz .LT. dp%dump_uz_max)) THEN
             ndump = ndump+1
-            mask(ip) = .TRUE.
+            mask(np+ip) = .TRUE.
           ENDIF
         END DO
+        np = np + count
       ENDIF
     END DO
   END DO
-- 
2.43.0


From 74978deabe79634131932c5f2b550dd4f707aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 38/52] fix: keep value, file and rank together in temporal
 diagnostics

With some diagnostics inactive the files were opened for the wrong ones, the rank
test was off by one and unit 42 collided with the field output.
---
 src/diags/diags.F90   | 63 +++++++++++++++----------------------------
 src/ios/simple_io.F90 | 48 ++++++++++++---------------------
 2 files changed, 38 insertions(+), 73 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index d9a5b15..9af024e 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -259,7 +259,7 @@ MODULE diagnostics
 
     IMPLICIT NONE
 
-    INTEGER :: i
+    INTEGER :: i, n, iowner
 
     IF (temdiag_frequency.gt.0) THEN
 
@@ -370,47 +370,26 @@ MODULE diagnostics
 
       ! Each mpi task will write in a given file according to their rank
       CALL MPI_BARRIER(comm,errcode)
-      IF (nproc.ge.temdiag_nb) then
-        IF ((rank.ge.0).and.(rank.lt.temdiag_nb)) then
-          if (temdiag_act_list(rank+1).gt.0) then
-            write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,          &
-            "./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1)))
-            if (temdiag_format.eq.1) then
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              ACTION='write', STATUS='new')
-              write(42, *) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            else
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              FORM="unformatted", ACCESS='stream', STATUS='new')
-              write(42) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            end if
-
-          end if
-        ENDIF
-        ! If there is not enough proc, only the first one deals with it
-      else
-        IF (rank.eq.0) then
-          do i= 1, temdiag_nb
-            if (temdiag_act_list(i) .gt.0) then
-              write(0, '(" Creation of the file ", A30)')                             &
-              "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
-              IF (temdiag_format.eq.1) THEN
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                ACTION='write', STATUS='new')
-                write(42+i, *) temdiag_nb_values(i), temdiag_frequency*dt
-              else
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                FORM="unformatted", ACCESS='stream', STATUS='NEW')
-                write(42+i) temdiag_nb_values(i), temdiag_frequency*dt
-              end if
-            end if
-          end do
-        end if
-      end if
+      ! If there are not enough processes, only the first one deals with them
+      n = 0
+      DO i = 1, 10
+        IF (temdiag_act_list(i).le.0) CYCLE
+        n = n + 1
+        iowner = 0
+        IF (nproc.ge.temdiag_nb) iowner = n - 1
+        IF (rank.ne.iowner) CYCLE
+        write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,              &
+        "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
+        IF (temdiag_format.eq.1) THEN
+          open(unit=42+n, file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),     &
+          ACTION='write', STATUS='new')
+          write(42+n, *) temdiag_nb_values(i), temdiag_frequency*dt
+        ELSE
+          open(unit=42+n, file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),     &
+          FORM="unformatted", ACCESS='stream', STATUS='new')
+          write(42+n) temdiag_nb_values(i), temdiag_frequency*dt
+        END IF
+      END DO
 
       CALL MPI_BARRIER(comm, errcode)
 
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 36cf4e1..aa2d317 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -252,7 +252,7 @@ SUBROUTINE output_temporal_diagnostics
 
   REAL(num), dimension(:), allocatable :: local_values, global_values
   INTEGER(idp) :: ispecies
-  INTEGER(isp) :: i
+  INTEGER(isp) :: i, n, iowner
   REAL(num) :: tmptime
 
 #if defined(DEBUG)
@@ -412,37 +412,23 @@ SUBROUTINE output_temporal_diagnostics
 
     ! Output
     ! Each mpi task will write in a given file according to their rank
-    IF (nproc.ge.temdiag_nb) then
-      IF ((rank.ge.0).and.(rank.le.temdiag_nb)) then
-
+    n = 0
+    DO i = 1, 10
+      IF (temdiag_act_list(i).le.0) CYCLE
+      n = n + 1
+      iowner = 0
+      IF (nproc.ge.temdiag_nb) iowner = n - 1
+      IF (rank.ne.iowner) CYCLE
+      IF (temdiag_format.eq.1) THEN
         ! Ascii format
-        IF (temdiag_format.eq.1) then
-          write(42, *)                                                                &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
-
-          ! Binary format
-        ELSE
-          write(42)                                                                   &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
-        ENDIF
-
-      end if
-    else
-      if (rank.eq.0) then
-        DO i=1, temdiag_nb
-          IF (temdiag_format.eq.1) then
-            write(42+i, *)                                                            &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-            ! Binary format
-          else
-            write(42+i)                                                               &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-          end if
-        ENDDO
-      ENDIF
-    ENDIF
+        write(42+n, *)                                                                &
+        global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
+      ELSE
+        ! Binary format
+        write(42+n)                                                                   &
+        global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
+      END IF
+    END DO
 
     localtimes(9) = localtimes(9) + (MPI_WTIME() - tmptime)
 
-- 
2.43.0


From 71ec383ab09d3916fb665a44c1fc4fa08c6484a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 39/52] fix: field energies and norms of the temporal
 diagnostics in 2D and on all cells

The norms skipped the first and included one extra plane; 2D energies were computed
on the wrong y plane.
---
 src/diags/diags.F90   | 18 +++++++++---------
 src/ios/simple_io.F90 | 12 ++++++------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 9af024e..4cc53be 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1216,9 +1216,9 @@ MODULE diagnostics
 
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm)
-    do l = 1, nz2
-      do k = 1, ny2
-        do j = 1, nx2
+    do l = 0, nz2-1
+      do k = 0, ny2-1
+        do j = 0, nx2-1
 
           norm = norm + (divee2(j, k, l)*eps0 - rho2(j, k, l))**2
 
@@ -1257,9 +1257,9 @@ MODULE diagnostics
 
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm)
-    do l = 1, nz2
-      do k = 1, ny2
-        do j = 1, nx2
+    do l = 0, nz2-1
+      do k = 0, ny2-1
+        do j = 0, nx2-1
 
           norm = norm+ (array(j, k, l))**2
 
@@ -1304,9 +1304,9 @@ MODULE diagnostics
 
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm_loc)
-    do l = 1, nz2
-      do k = 1, ny2
-        do j = 1, nx2
+    do l = 0, nz2-1
+      do k = 0, ny2-1
+        do j = 0, nx2-1
 
           norm_loc = norm_loc + (divee2(j, k, l)*eps0 - rho2(j, k, l))**2
 
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index aa2d317..6749eca 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -282,7 +282,7 @@ SUBROUTINE output_temporal_diagnostics
       nzguards, local_values(temdiag_i_list(2)))
       local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ex, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ex(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(2)))
          local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ENDIF
@@ -295,7 +295,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(3)))
         local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ey, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ey(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(3)))
          local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ENDIF
@@ -310,7 +310,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ELSE IF(c_dim==2) THEN
-        CALL get_loc_field_energy_2d(ez, nx, nz, dx, dz, nxguards,nzguards,           &
+        CALL get_loc_field_energy_2d(ez(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,           &
         local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ENDIF
@@ -325,7 +325,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(5)))
         local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bx, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(bx(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(5)))
          local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ENDIF
@@ -339,7 +339,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(6)))
         local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(by, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(by(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(6)))
          local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ENDIF
@@ -353,7 +353,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(7)))
         local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bz, nx, nz, dx, dz, nxguards,nzguards,            &
+         CALL get_loc_field_energy_2d(bz(:, 0:0, :), nx, nz, dx, dz, nxguards,nzguards,            &
          local_values(temdiag_i_list(7)))
          local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ENDIF
-- 
2.43.0


From b1f5f817bf9e6d909d86e0ec9b685e6cf4209a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 40/52] fix: use the species mass in the kinetic energy
 diagnostic

---
 src/ios/simple_io.F90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 6749eca..ec034e1 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -234,7 +234,7 @@ END SUBROUTINE output_routines
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE output_temporal_diagnostics
-  USE constants, ONLY: clight, emass, eps0, imu0
+  USE constants, ONLY: clight, eps0, imu0
   USE diagnostics
   USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nyguards, nzguards
   USE mpi
@@ -244,6 +244,7 @@ SUBROUTINE output_temporal_diagnostics
     temdiag_totvalues
   USE params, ONLY: it
   USE particle_properties, ONLY: nspecies
+  USE particles, ONLY: species_parray
   USE picsar_precision, ONLY: idp, isp, num
   USE shared_data, ONLY: c_dim, comm, dive, dx, dy, dz, errcode, nproc, nx, ny, nz,  &
     rank, rho
@@ -271,7 +272,7 @@ SUBROUTINE output_temporal_diagnostics
         CALL get_loc_kinetic_energy(ispecies,                                         &
         local_values(temdiag_i_list(1)+ispecies-1))
         local_values(temdiag_i_list(1)+ispecies-1) =                                  &
-        local_values(temdiag_i_list(1)+ispecies-1)*emass*clight**2
+        local_values(temdiag_i_list(1)+ispecies-1)*species_parray(ispecies)%mass*clight**2
       ENDDO
     end if
 
-- 
2.43.0


From 0d5fdbd8ea498c5b73d28dae500405160e165c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 41/52] fix: J, rho and div J diagnostics use the guard widths
 of J and rho

---
 src/ios/simple_io.F90                    | 23 ++++++++++++-----------
 src/parallelization/mpi/mpi_routines.F90 |  3 ++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index ec034e1..e1ba1da 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -144,29 +144,29 @@ MODULE simple_io
         IF (rank.eq.0) WRITE(0, *) "Write current density jx"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejx))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jx, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_jy .EQ. 1) THEN
         ! - Write current density jy
         IF (rank.eq.0) WRITE(0, *) "Write current density jy"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejy))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jy, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_jz .EQ. 1) THEN
         ! - Write current density jz
         IF (rank.eq.0) WRITE(0, *) "Write current density jz"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejz))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jz, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_divj .EQ. 1) THEN 
-        CALL calc_field_div(divj, jx, jy, jz, nx, ny, nz, nxguards, nyguards,&
-          nzguards, dx, dy, dz)
+        CALL calc_field_div(divj, jx, jy, jz, nx, ny, nz, nxjguards, nyjguards,&
+          nzjguards, dx, dy, dz)
         IF (rank.eq.0) WRITE(0, *) "Write electric field divergence div J"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filedivj))//     &
         TRIM(ADJUSTL(strtemp))//'.pxr', divj, xmin, xmax, ymin, ymax, zmin,zmax,     &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global,nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global,nz_global)
       ENDIF
       IF (c_output_divb .EQ. 1) THEN
         CALL calc_field_divB(divb, bx, by, bz, nx, ny, nz, nxguards, nyguards,&
@@ -194,7 +194,7 @@ MODULE simple_io
         IF (rank.eq.0) WRITE(0, *) "Write total charge density rho"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filerho))//      &
         TRIM(ADJUSTL(strtemp))//'.pxr', rho, xmin, xmax, ymin, ymax, zmin, zmax,      &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
 
       tmptime2 = MPI_WTIME() - tmptime2
@@ -236,7 +236,8 @@ END SUBROUTINE output_routines
 SUBROUTINE output_temporal_diagnostics
   USE constants, ONLY: clight, eps0, imu0
   USE diagnostics
-  USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nyguards, nzguards
+  USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nxjguards, nyguards,            &
+    nyjguards, nzguards, nzjguards
   USE mpi
   USE mpi_type_constants, ONLY: mpidbl
   USE output_data, ONLY: dive_computed, temdiag_act_list, temdiag_format,            &
@@ -369,14 +370,14 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, dx, dy, dz)
         divE_computed = .true.
       ENDIF
-      CALL get_loc_norm_divErho(dive, rho, nx, ny, nz, nxguards, nyguards, nzguards,  &
-      local_values(temdiag_i_list(8)))
+      CALL get_loc_norm_divErho(dive(0:nx, 0:ny, 0:nz), rho(0:nx, 0:ny, 0:nz), nx,    &
+      ny, nz, 0_idp, 0_idp, 0_idp, local_values(temdiag_i_list(8)))
       local_values(temdiag_i_list(8)) = local_values(temdiag_i_list(8))
     end if
 
     ! ||rho||
     if (temdiag_act_list(9).gt.0) then
-      CALL get_loc_norm_2(rho, nx, ny, nz, nxguards, nyguards, nzguards,              &
+      CALL get_loc_norm_2(rho, nx, ny, nz, nxjguards, nyjguards, nzjguards,              &
       local_values(temdiag_i_list(9)))
       local_values(temdiag_i_list(9)) = local_values(temdiag_i_list(9))
     end if
diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index bb76c0e..47cd0fb 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1822,7 +1822,8 @@ ALLOCATE(rhoold(-nxjguards:nx+nxjguards, -nyjguards:ny+nyjguards,
 -nzjguards:nz+nzjguards))
 ALLOCATE(dive(-nxguards:nx+nxguards, -nyguards:ny+nyguards,                       &
 -nzguards:nz+nzguards))
-ALLOCATE(divj(-nxguards:nx+nxguards, -nyguards:ny+nyguards, -nzguards:nz+nzguards))
+ALLOCATE(divj(-nxjguards:nx+nxjguards, -nyjguards:ny+nyjguards,                   &
+-nzjguards:nz+nzjguards))
 ALLOCATE(divb(-nxguards:nx+nxguards, -nyguards:ny+nyguards, -nzguards:nz+nzguards))
 ! --- Initialize auxiliary field arrays for gather to particles
 ex_p => ex
-- 
2.43.0


From 9b30fc60bb23f89307a481c6fa9e940fa46ff08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 42/52] fix: compute div B on all nodes and in 2D

---
 src/diags/diags.F90 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 4cc53be..71fb460 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -146,7 +146,7 @@ MODULE diagnostics
       DO k = 0, ny
         DO j = 0, nx
           divee(j, k, l) = invdx*(eex(j, k, l)-eex(j-1, k, l))+ invdy*(eey(j, k,      &
-          l)-eey(j, k-1, l))+invdz*(eez(j, k, l)-eez(j, k, l-1))
+          l)-eey(j, MAX(k-1, -nyguard), l))+invdz*(eez(j, k, l)-eez(j, k, l-1))
         END DO
       END DO
     END DO
@@ -183,11 +183,11 @@ MODULE diagnostics
     invdz=1.0_num/dz
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, j, k)
     !$OMP DO COLLAPSE(3)
-    DO l = 1, nz
-      DO k = 1, ny
-        DO j = 1, nx
-          divbb(j, k, l) = invdx*(bbx(j+1, k, l)-bbx(j, k, l))+ invdy*(bby(j, k+1,& 
-          l)-bby(j, k, l))+invdz*(bbz(j, k, l+1)-bbz(j, k, l))
+    DO l = 0, nz
+      DO k = 0, ny
+        DO j = 0, nx
+          divbb(j, k, l) = invdx*(bbx(j+1, k, l)-bbx(j, k, l))+ invdy*(bby(j,       &
+          MIN(k+1, ny+nyguard), l)-bby(j, k, l))+invdz*(bbz(j, k, l+1)-bbz(j, k, l))
         END DO
       END DO
     END DO
-- 
2.43.0


From f9febb83811d5ddd4fd7763e795eda06f934d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 43/52] fix: time statistics are written once, with the
 recorded steps only

---
 src/diags/diags.F90   | 8 +++++---
 src/ios/simple_io.F90 | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 71fb460..79fd457 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -421,9 +421,11 @@ MODULE diagnostics
 
       nb_timestat = 13
 
-      OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
-      WRITE(41) nb_timestat
-      WRITE(41) timestat_period*dt
+      IF (rank.eq.0) THEN
+        OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
+        WRITE(41) nb_timestat
+        WRITE(41) timestat_period*dt
+      ENDIF
 
       IF (rank.eq.0) WRITE(0, *) ' Initialization of the time statistics output: ',   &
       nb_timestat
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index e1ba1da..b221c7a 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -958,12 +958,13 @@ END SUBROUTINE
 !> Creation 2016
 ! ________________________________________________________________________________________
 SUBROUTINE final_output_time_statistics
+USE shared_data, ONLY: rank
 USE time_stat, ONLY: buffer_timestat, itimestat, timestat_activated
 IMPLICIT NONE
 
 IF (timestat_activated.gt.0) THEN
 
-  write(41) buffer_timestat(1:13, 1:itimestat)
+  IF (rank.eq.0) write(41) buffer_timestat(1:13, 1:itimestat-1)
 
 END IF
 
-- 
2.43.0


From 004fa676e6d6929fff8c4daa2a73cfb3dd70c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 44/52] fix: initialise index_particle and the kinetic energy
 sum

---
 src/diags/diags.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 79fd457..eaa2b48 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -682,6 +682,7 @@ MODULE diagnostics
 
       INTEGER(idp) :: i
       npnew = 0_idp
+      index_particle = 0_idp
       DO i=1, nptot
         particle_relative_position_old(i) =                                             &
         plane_normal_vector(1)*(particle_x_old(i) - plane_position_old(1))              &
@@ -942,6 +943,8 @@ MODULE diagnostics
     REAL(num) :: partgam
 
     ! current species
+    total_kinetic_energy_loc = 0
+
     curr=>species_parray(ispecies)
 
     ! Loop over the tiles
-- 
2.43.0


From ca750f209fda74e51d41c107014c5fb34f3335b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 45/52] fix: Lorentz transform of Bx uses beta/c like By

---
 src/diags/diags.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index eaa2b48..7326ac5 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1366,7 +1366,7 @@ MODULE diagnostics
 
       temp = fields(1,i)
       fields(1,i) = gam*(fields(1,i) - cbeta*fields(3,i)) ! ey
-      fields(3,i) = gam*(fields(3,i) - cbeta*temp)    ! bx
+      fields(3,i) = gam*(fields(3,i) - beta_c*temp)    ! bx
   
       temp = fields(9,i)
       fields(9,i) =  gam*( fields(9,i) + beta_c * fields(8,i) ) ! rho
@@ -1413,7 +1413,7 @@ MODULE diagnostics
 
         temp = fields(1,i,j)
         fields(1,i,j) = gam*(fields(1,i,j) - cbeta*fields(3,i,j)) ! ey
-        fields(3,i,j) = gam*(fields(3,i,j) - cbeta*temp)    ! bx
+        fields(3,i,j) = gam*(fields(3,i,j) - beta_c*temp)    ! bx
 
         temp = fields(9,i,j)
         fields(9,i,j) =  gam*( fields(9,i,j) + beta_c * fields(8,i,j) ) ! rho
-- 
2.43.0


From 582703f47c1a6d8b4e49a3d7549afe4b3fb45926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 46/52] fix: random plasma distributions fill the extent of the
 species

Particles were spread over the whole local domain whatever the extent of the species.
---
 src/parallelization/tiling/tiling.F90 | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index fc2f303..dd61bae 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -978,9 +978,9 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
                 partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
@@ -1009,8 +1009,8 @@ MODULE tiling
       !!! --- Sets-up particle space distribution (random space with a given velocity)
     ELSE IF (pdistr .EQ. 3) THEN
       DO ispecies=1, nspecies
-        IF (curr%is_antenna) CYCLE
         curr=>species_parray(ispecies)
+        IF (curr%is_antenna) CYCLE
         jmin = NINT(MAX(curr%x_min-x_min_local, 0.0_num)/dx)
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
         kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
@@ -1023,9 +1023,9 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
                 partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
 
                 ! Sets velocity
-- 
2.43.0


From 1e1bbef20eef9851b2969f7ee6a8b5fb5a24d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 47/52] fix: random plasma distributions loaded no particle in
 2D

---
 src/parallelization/tiling/tiling.F90 | 36 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index dd61bae..8e406af 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -867,7 +867,7 @@ MODULE tiling
     INTEGER(idp) :: ispecies, l, k, j, ipart
     INTEGER(idp) :: jmin, jmax, kmin, kmax, lmin, lmax
     REAL(num) :: partx, party, partz, partux, partuy, partuz, gaminv
-    REAL(num) :: phi, th, v, clightsq, partvx, partvy, partvz
+    REAL(num) :: phi, th, v, clightsq, partvx, partvy, partvz, cellvol
     REAL(num), DIMENSION(:), ALLOCATABLE :: partpid
     INTEGER(idp) :: npart
     INTEGER(isp) :: err
@@ -970,6 +970,12 @@ MODULE tiling
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
         kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
         kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        cellvol = dx*dy*dz
+        IF (c_dim.eq.2) THEN
+          kmin = 0
+          kmax = 1
+          cellvol = dx*dz
+        ENDIF
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
         DO l=lmin, lmax-1
@@ -981,7 +987,7 @@ MODULE tiling
                 partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
                 party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
                 partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                partpid(wpid) = nc*cellvol/(curr%nppcell)
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
                 th=2*pi*rng(5)
@@ -997,8 +1003,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim.eq.2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy, &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                ENDIF
               END DO
             END DO
           END DO
@@ -1015,6 +1026,12 @@ MODULE tiling
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
         kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
         kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        cellvol = dx*dy*dz
+        IF (c_dim.eq.2) THEN
+          kmin = 0
+          kmax = 1
+          cellvol = dx*dz
+        ENDIF
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
         DO l=lmin, lmax-1
@@ -1026,7 +1043,7 @@ MODULE tiling
                 partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
                 party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
                 partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                partpid(wpid) = nc*cellvol/(curr%nppcell)
 
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
@@ -1043,8 +1060,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim.eq.2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy, &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                ENDIF
               END DO
             END DO
           END DO
-- 
2.43.0


From bf9dac8f480416f3675feb4784d3f0dd587dec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:00 +0000
Subject: [PATCH 48/52] fix: extra particle attributes were uninitialised in
 loaded plasmas

---
 src/parallelization/tiling/tiling.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index 8e406af..be18d3e 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -874,6 +874,7 @@ MODULE tiling
     REAL(num), DIMENSION(6) :: rng=0_num
     clightsq=1/clight**2
     ALLOCATE(partpid(npid))
+    partpid = 0.0_num
     !!! --- Sets-up particle space distribution
     !!! --- (homogeneous case, uniform space distribution - default)
     IF (pdistr .EQ. 1) THEN
-- 
2.43.0


From 32bd99f1e44b864c835567f59b793c9938166c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 49/52] fix: the E field push read J with the guard cells of E

---
 .../Maxwell/maxwell_solver_manager.F90        | 25 ++++++++++---------
 src/field_solvers/Maxwell/yee_solver/yee.F90  | 18 +++++++------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/field_solvers/Maxwell/maxwell_solver_manager.F90 b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
index d3a9e83..b1c62ed 100644
--- a/src/field_solvers/Maxwell/maxwell_solver_manager.F90
+++ b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
@@ -393,8 +393,8 @@ END SUBROUTINE merge_b_fields
 SUBROUTINE push_efield
   USE constants, ONLY: clight, mu0
   USE fields, ONLY: bx, by, bz, ex, ey, ez, jx, jy, jz, l_nodalgrid, norderx,        &
-    nordery, norderz, nxguards, nxs, nyguards, nys, nzguards, nzs, xcoeffs, ycoeffs, &
-    zcoeffs
+    nordery, norderz, nxguards, nxjguards, nxs, nyguards, nyjguards, nys, nzguards,  &
+    nzjguards, nzs, xcoeffs, ycoeffs, zcoeffs
   USE mpi
   USE params, ONLY: dt, it
   USE picsar_precision, ONLY: num
@@ -420,9 +420,9 @@ SUBROUTINE push_efield
          bx, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
          by, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
          bz, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jx, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jy, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jz, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
+         jx, (/-nxjguards, -nyjguards, -nzjguards/), (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
+         jy, (/-nxjguards, -nyjguards, -nzjguards/), (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
+         jz, (/-nxjguards, -nyjguards, -nzjguards/), (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
          clight**2*mu0*dt, clight**2*dt/dx , clight**2*dt/dy, clight**2*dt/dz)
 
   ELSE
@@ -430,7 +430,7 @@ SUBROUTINE push_efield
     CALL pxrpush_em3d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz,                 &
     clight**2*mu0*dt, clight**2*dt/dx*xcoeffs, clight**2*dt/dy*ycoeffs,               &
     clight**2*dt/dz*zcoeffs, nx, ny, nz, norderx, nordery, norderz, nxguards,         &
-    nyguards, nzguards, nxs, nys, nzs, l_nodalgrid)
+    nyguards, nzguards, nxjguards, nyjguards, nzjguards, nxs, nys, nzs, l_nodalgrid)
   ENDIF
 
   IF (it.ge.timestat_itstart) THEN
@@ -508,8 +508,8 @@ END SUBROUTINE push_bfield_2d
 SUBROUTINE push_efield_2d
   USE constants, ONLY: clight, mu0
   USE fields, ONLY: bx, by, bz, ex, ey, ez, jx, jy, jz, l_nodalgrid, norderx,        &
-    nordery, norderz, nxguards, nxs, nyguards, nzguards, nzs, xcoeffs, ycoeffs,      &
-    zcoeffs
+    nordery, norderz, nxguards, nxjguards, nxs, nyguards, nyjguards, nzguards, nzjguards,     &
+    nzs, xcoeffs, ycoeffs, zcoeffs
   USE mpi
   USE params, ONLY: dt, it
   USE picsar_precision, ONLY: idp, num
@@ -535,9 +535,9 @@ SUBROUTINE push_efield_2d
          bx(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
          by(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
          bz(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jx(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jy(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jz(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
+         jx(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
+         jy(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
+         jz(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
          mdt, clight**2*dt/dx ,0., clight**2*dt/dz)
 
     ! Yee scheme arbitrary order
@@ -545,7 +545,8 @@ SUBROUTINE push_efield_2d
 
     CALL pxrpush_em2d_evec_norder(ex, ey, ez, bx, by, bz,jx,jy,jz,mdt, clight**2*dt/dx*xcoeffs,&
     clight**2*dt/dy*ycoeffs, clight**2*dt/dz*zcoeffs, nx, ny, nz, norderx, nordery,&
-    norderz, nxguards, nyguards, nzguards, nxs, 0_idp, nzs, l_nodalgrid)
+    norderz, nxguards, nyguards, nzguards, nxjguards, nyjguards, nzjguards, nxs,   &
+    0_idp, nzs, l_nodalgrid)
 
   ENDIF
 
diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 81c4a5f..8a23d9d 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -44,16 +44,17 @@
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE pxrpush_em3d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz, mudt, dtsdx,  &
-  dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard, nxs,  &
-  nys, nzs, l_nodalgrid)
+  dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard,       &
+  nxjguard, nyjguard, nzjguard, nxs, nys, nzs, l_nodalgrid)
   USE picsar_precision, ONLY: idp, lp, num
 
   INTEGER(idp), INTENT(IN) :: nx, ny, nz, nxguard, nyguard, nzguard, nxs, nys, nzs
+  INTEGER(idp), INTENT(IN) :: nxjguard, nyjguard, nzjguard
   INTEGER(idp), INTENT(IN) :: norderx, nordery, norderz
   REAL(num), INTENT(IN OUT), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,      &
   -nzguard:nz+nzguard) :: ex, ey, ez, bx, by, bz
-  REAL(num), INTENT(IN), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,          &
-  -nzguard:nz+nzguard) :: Jx, Jy, Jz
+  REAL(num), INTENT(IN), DIMENSION(-nxjguard:nx+nxjguard, -nyjguard:ny+nyjguard,      &
+  -nzjguard:nz+nzjguard) :: Jx, Jy, Jz
   REAL(num), INTENT(IN) :: mudt, dtsdx(norderx/2), dtsdy(nordery/2), dtsdz(norderz/2)
   INTEGER(idp) :: i, j, k, l, ist
   LOGICAL(lp)  :: l_nodalgrid
@@ -133,15 +134,16 @@ END SUBROUTINE pxrpush_em3d_evec_norder
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE pxrpush_em2d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz, mudt, dtsdx,  &
-  dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard, nxs,  &
-  nys, nzs, l_nodalgrid)
+  dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard,       &
+  nxjguard, nyjguard, nzjguard, nxs, nys, nzs, l_nodalgrid)
   USE picsar_precision, ONLY: idp, lp, num
   INTEGER(idp) :: nx, ny, nz, nxguard, nyguard, nzguard, nxs, nys, nzs, norderx,      &
   nordery, norderz
+  INTEGER(idp) :: nxjguard, nyjguard, nzjguard
   REAL(num), INTENT(IN OUT), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,      &
   -nzguard:nz+nzguard) :: ex, ey, ez, bx, by, bz
-  REAL(num), INTENT(IN), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,          &
-  -nzguard:nz+nzguard) :: Jx, Jy, Jz
+  REAL(num), INTENT(IN), DIMENSION(-nxjguard:nx+nxjguard, -nyjguard:ny+nyjguard,      &
+  -nzjguard:nz+nzjguard) :: Jx, Jy, Jz
   REAL(num), INTENT(IN) :: mudt, dtsdx(norderx/2), dtsdy(nordery/2), dtsdz(norderz/2)
   INTEGER(idp) :: i, j, k, l, ist
   LOGICAL(lp), INTENT(IN)  :: l_nodalgrid
-- 
2.43.0


From ef20fa72617f93bd889d0392b536ab52db45fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 50/52] fix: the tiles at the borders of a process gathered
 from guard cells E and B do not have

---
 src/parallelization/tiling/tiling.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index be18d3e..11f305a 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -768,17 +768,17 @@ MODULE tiling
             IF ((ix .GT. 1) .AND. (ix .LT. ntx2)) THEN
               curr_tile%nxg_tile=MAX(nox+1, 2_idp)
             ELSE
-              curr_tile%nxg_tile=nxjguards
+              curr_tile%nxg_tile=MIN(nxguards, nxjguards)
             END IF
             IF ((iy .GT. 1) .AND. (iy .LT. nty2) .AND. (c_dim .EQ. 3)) THEN
               curr_tile%nyg_tile=MAX(noy+1, 2_idp)
             ELSE
-              curr_tile%nyg_tile=nyjguards
+              curr_tile%nyg_tile=MIN(nyguards, nyjguards)
             END IF
             IF ((iz .GT. 1) .AND. (iz .LT. ntz2)) THEN
               curr_tile%nzg_tile=MAX(noz+1, 2_idp)
             ELSE
-              curr_tile%nzg_tile=nzjguards
+              curr_tile%nzg_tile=MIN(nzguards, nzjguards)
             END IF
             ! - Allocate arrays of current tile
             IF (.NOT. curr_tile%l_arrays_allocated) THEN
-- 
2.43.0


From 09dfd883d337bfacf055f746801c916e54c90fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 51/52] fix: time_statistics computed with averages that only
 the first process has

---
 src/parallelization/mpi/mpi_routines.F90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index 47cd0fb..b98b93d 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -2150,13 +2150,13 @@ errcode)
 CALL MPI_REDUCE(localtimes, avetimes, 26_isp, mpidbl, MPI_SUM, 0_isp, comm, errcode)
 CALL MPI_REDUCE(init_localtimes, init_avetimes, 5_isp, mpidbl, MPI_SUM, 0_isp, comm,  &
 errcode)
-avetimes = avetimes / nproc
-init_avetimes = init_avetimes / nproc
+IF (rank .EQ. 0) THEN
+  avetimes = avetimes / nproc
+  init_avetimes = init_avetimes / nproc
 
-! Percentage
-percenttimes = avetimes / avetimes(20) * 100
+  ! Percentage
+  percenttimes = avetimes / avetimes(20) * 100
 
-IF (rank .EQ. 0) THEN
   WRITE(0, *)                                                                         &
   '___________________________________________________________________________'
   WRITE(0, '(X, A40, X)') "Time statistics Initialization:"
-- 
2.43.0


From b95f210dc53ff02021c279ba158b74d48026a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 52/52] fix: threads wrote to the message stream of the
 emission table at the same time

---
 src/multi_physics/QED/src/quantum_sync_engine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index 651d97d..3002e74 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -713,6 +713,7 @@ compute_cumulative_phot_em_table (std::ostream* stream)
             previous = guess;
             chi_phot_frac_vals[cc++] = exp(log_chi_phot_frac);
             first_one = false;
+            #pragma omp critical (picsar_qs_table_msg)
             msg(std::to_string(ii) + " " + std::to_string(jj) + "\n", stream);
         }
     }
-- 
2.43.0

