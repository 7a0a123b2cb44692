From c5bef9ae15a17b1af5ba7f0335ea6eb539f848c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 01/54] fix: midpoint inversion used the correlation matrix one
 step too early

The sum over past cells must be paired with B((2(i-j)+1)dt), as in the
diagonal term; the first cell is half a cell wide, so its value came out
halved, and with an even number of points the last value was never computed.
---
 VolterraBasis/fkernel.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..7d98d53 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -145,10 +145,11 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
+  kernel(0,:,:)=2*kernel(0,:,:) ! The first cell is only half a cell wide
 
 
 end subroutine kernel_first_kind_midpoint
-- 
2.43.0


From 3c7fcd6318c80cac704df21a52cb3066c159afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 02/54] fix: trapezoidal memory counted the last kernel point
 1.5 times past the kernel length

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 7d98d53..eb7e727 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -327,7 +327,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 15d1a768ffa9695d6ff26b6c5e50552bdc1c564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 03/54] fix: stabilised evolution sliced the wrong axis of its
 history

The memory integral read outside the array, and the normalisation mixed the
rows of several initial conditions.
---
 VolterraBasis/fkernel.f90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index eb7e727..e4d6d14 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -466,7 +466,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
   double precision,intent(in)::dt
   double precision,dimension(dim_other,dim_basis)::memory
   double precision,dimension(dim_basis,dim_basis)::invK0,id
-  integer::i,max_len
+  integer::i,j,max_len
 
   E(:,:,0)=E0
   id=0
@@ -478,11 +478,13 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-    E(:,:,i) = E(:,:,i) / sum(E(:,:,i))
+    do j=1,dim_other
+      E(j,:,i) = E(j,:,i) / sum(E(j,:,i))
+    end do
   end do
 
 
-- 
2.43.0


From 667d7fc57027813cf610021ab8a7874abfaa671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:09 +0000
Subject: [PATCH 04/54] fix: evolution of the Volterra equation dropped the
 oldest point of the memory integral

The rectangle rule stopped two points short and the trapezoidal rule left out
its last half point.
---
 VolterraBasis/fkernel.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index e4d6d14..9891ef2 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -416,7 +416,7 @@ subroutine solve_ide_rect(len_mem, dim_basis, dim_other, kernel, E0, f_coeff,len
   invK0 = inv(id+kernel(0,:,:)*dt**2)
 
   do i=1,lenTraj-1
-    max_len = min(i,len_mem)-1
+    max_len = min(i,len_mem)
     call rect_integral(memory,dt,max_len,E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1) -dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
   end do
@@ -447,6 +447,7 @@ subroutine solve_ide_trapz(len_mem, dim_basis, dim_other, kernel, E0, f_coeff,le
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
     call trapz_integral(memory,dt,max_len,E(:,:,i-max_len:i),kernel(0:max_len,:,:), dim_basis,dim_basis,dim_other)
+    memory = memory+0.5*dt*matmul(E(:,:,i-max_len),kernel(max_len,:,:))
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
   end do
 
@@ -479,6 +480,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
     call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    memory = memory+0.5*dt*matmul(E(:,:,i-max_len),kernel(max_len,:,:))
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From 7f2b4cba3a64fad97a848ef8250b5c8dc1117adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 05/54] fix: a singular matrix ended the whole Python process

LAPACK reporting a singular matrix executed a Fortran STOP; return NaN instead.
---
 VolterraBasis/fkernel.f90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 9891ef2..cebec99 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -10,6 +10,7 @@ contains
 ! Returns the inverse of a matrix calculated by finding the LU
 ! decomposition.  Depends on LAPACK.
 function inv(A) result(Ainv)
+  use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
   implicit none
   double precision,intent(in) :: A(:,:)
   double precision            :: Ainv(size(A,1),size(A,2))
@@ -22,11 +23,14 @@ function inv(A) result(Ainv)
   ! SGETRF computes an LU factorization of a general M-by-N matrix A
   ! using partial pivoting with row interchanges.
   call DGETRF(n,n,Ainv,n,ipiv,info)
-  if (info.ne.0) stop 'Matrix is numerically singular!'
+  if (info.ne.0) then ! Numerically singular, there is no inverse to return
+    Ainv = ieee_value(Ainv, ieee_quiet_nan)
+    return
+  end if
   ! SGETRI computes the inverse of a matrix using the LU factorization
   ! computed by SGETRF.
   call DGETRI(n,Ainv,n,ipiv,work,n,info)
-  if (info.ne.0) stop 'Matrix inversion failed!'
+  if (info.ne.0) Ainv = ieee_value(Ainv, ieee_quiet_nan)
 end function inv
 end module lapackMod
 
-- 
2.43.0


From 167450585f6fcc4972b718c3e3e7e1d94244dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 06/54] fix: compute_kernel before compute_corrs raised
 AttributeError instead of its own message

---
 VolterraBasis/gle_estimation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..e36640b 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -61,6 +61,12 @@ class Estimator_gle(object):
 
         self.data_describe = None
 
+        # Correlation functions, set by compute_corrs
+        self.bkbkcorrw = None
+        self.bkdxcorrw = None
+        self.dotbkdxcorrw = None
+        self.dotbkbkcorrw = None
+
         self._do_check(xva_arg)  # Do some check on the trajectories
 
         # Save trajectory properties
-- 
2.43.0


From 8b34ecbe10265cbdafcf4a4850679807402191ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 07/54] fix: prefix of the saved files was ignored

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index e36640b..a774b0a 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -56,8 +56,8 @@ class Estimator_gle(object):
         self.verbose = verbose
 
         # filenames
-        self.corrsfile = "corrs.nc"
-        self.kernelfile = "kernel.nc"
+        self.corrsfile = prefix + "corrs.nc"
+        self.kernelfile = prefix + "kernel.nc"
 
         self.data_describe = None
 
-- 
2.43.0


From 8e73a732db59aa5a9eb57cba88d29207e33dc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 08/54] fix: a rejected compute_kernel call changed the method
 of the kernel in place

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a774b0a..bd5cc75 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -311,7 +311,6 @@ class Estimator_gle(object):
             print("Compute memory kernel using {} method".format(method))
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
-        self.model.method = method  # Save used method
         if self.verbose:
             print("Use dt:", self.dt)
         if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:  # Then we should compute initial value from time derivative at zero
@@ -348,6 +347,7 @@ class Estimator_gle(object):
         else:
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
+        self.model.method = method  # Save used method
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         if self.saveall:  # TODO: change to xarray save
             xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
-- 
2.43.0


From c62761082c6f02719699d2c277cbfbd066b52936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 09/54] fix: compute_gram_kernel failed for a basis projected
 onto its range

---
 VolterraBasis/gle_estimation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index bd5cc75..42c363c 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -215,9 +215,13 @@ class Estimator_gle(object):
         """
         if self.verbose:
             print("Calculate kernel gram...")
-        self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
+        if self.model.rank_projection and self.model.P_range is None:
+            raise Exception("Need correlation functions to project the kernel gram onto the range of the basis.")
+        gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            P_range = self.model.P_range.to_numpy()
+            gram_kernel = xr.DataArray(P_range @ gram_kernel.to_numpy() @ P_range.T, dims=gram_kernel.dims)
+        self.model.gram_kernel = gram_kernel
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From 9eaa0719142de437b65117a31f419e330e7cd375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 10/54] fix: compute_corrs(second_order_method=False) could not
 be saved and second kind methods then failed obscurely

---
 VolterraBasis/gle_estimation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 42c363c..cc211f2 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -294,7 +294,12 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            else:  # Only the first time has been computed
+                corrs.update({"dotbkdx_0": self.dotbkdxcorrw.isel(time_trunc=0)})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
@@ -341,11 +346,11 @@ class Estimator_gle(object):
             kernel = np.insert(kernel, 0, k0, axis=0)
             time_ker = time_ker[:-1]
         elif method == "second_kind_rect":
-            if self.dotbkdxcorrw is None or self.dotbkbkcorrw is None:
+            if self.dotbkdxcorrw is None or not isinstance(self.dotbkbkcorrw, xr.DataArray):
                 raise Exception("Need correlation with derivative functions to compute the kernel using this method, please use other method.")
             kernel = kernel_second_kind_rect(k0, self.bkbkcorrw.isel(time_trunc=0).to_numpy(), self.dotbkbkcorrw.to_numpy(), self.dotbkdxcorrw.to_numpy(), self.dt)
         elif method == "second_kind_trapz":
-            if self.dotbkdxcorrw is None or self.dotbkbkcorrw is None:
+            if self.dotbkdxcorrw is None or not isinstance(self.dotbkbkcorrw, xr.DataArray):
                 raise Exception("Need correlation with derivative functions to compute the kernel using this method, please use other method.")
             kernel = kernel_second_kind_trapz(k0, self.bkbkcorrw.isel(time_trunc=0).to_numpy(), self.dotbkbkcorrw.to_numpy(), self.dotbkdxcorrw.to_numpy(), self.dt)
         else:
-- 
2.43.0


From 7aa441ffc8c6706fc525ff0574a3a3b5f400062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 11/54] fix: compute_noise summed the mean force over the
 dimensions of the observable

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From 7d2be2615c99847f58b9850fe95465bccc2acd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 12/54] fix: compute_noise without a kernel raised TypeError
 instead of saying what is missing

---
 VolterraBasis/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..f2d13ed 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -150,6 +150,8 @@ class ModelBase(object):
         """
         if self.force_coeff is None:
             raise Exception("Mean force has not been computed.")
+        if self.kernel is None:
+            raise Exception("Kernel has not been computed.")
         if trunc_kernel is None:
             trunc_kernel = self.trunc_ind
         time_0 = xva["time"].data[0]
-- 
2.43.0


From 284e0a66160a0ccfe8d0515dae37ed5f4d00928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 13/54] fix: laplace_transform_kernel looked up a coordinate
 that does not exist

---
 VolterraBasis/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index f2d13ed..bc7842d 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -360,8 +360,9 @@ class ModelBase(object):
         # mintimelenght = self.trunc_ind * dt
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
+        time = self.kernel["time_kernel"].to_numpy()
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * time), self.kernel), x=time, axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From 7abf55df010c7a5c1a1fdb44a79b34191ce846c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 14/54] fix: load_model forgot the inversion method, the
 effective mass and the kernel gram

A model saved with a trapezoidal kernel computed its noise with the rectangle
rule after loading, and its free energy with a unit mass; the attributes of the
saved dataset were modified as well.
---
 VolterraBasis/models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index bc7842d..6f24c16 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -389,14 +389,18 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "rank_projection" in coeffs:
+            model.rank_projection = bool(coeffs["rank_projection"])
+        if "method" in coeffs:
+            model.method = str(coeffs["method"].values)
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From 173da58a00324986803ee65ced8755d2f73f74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 15/54] fix: flux_from_volterra used the transpose of the force
 and integrated one step behind

The terms now are the right-hand side of the equation that evolve_volterra
solves; the shape was also wrong unless the first two dimensions agree.
---
 VolterraBasis/models.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 6f24c16..084c3a0 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -334,16 +334,18 @@ class ModelBase(object):
             kernel = np.asarray(kernel)
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
-        force_term = np.matmul(force_coeff, corrs_force)
-        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
+        force_term = np.einsum("okt,kl->olt", corrs_force, force_coeff)
+        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[0], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
-            max_len = min(n, kernel.shape[0])
+            max_len = min(n, kernel.shape[0] - 1)
+            corrs_past, kernel_past = corrs_kernel[:, :, n - max_len : n + 1], kernel[: max_len + 1, :, :]
+            last_point = self.dt * corrs_past[:, :, 0] @ kernel_past[-1]  # Not included by trapz_integral and simpson_integral
             if method == "rect":
-                res_int[n, :] = -1 * rect_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
-            elif method == "trapz":
-                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * rect_integral(self.dt, corrs_past, kernel_past)
+            elif method == "trapz" or max_len == 1:
+                res_int[n, :] = -1 * (trapz_integral(self.dt, corrs_past, kernel_past) + 0.5 * last_point)
             elif method == "simpson":
-                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * (simpson_integral(self.dt, corrs_past, kernel_past) + last_point / 3.0)
 
         return force_term, res_int
 
-- 
2.43.0


From 42cfbc329bf7bb7dc422c3a812ce29303ad711cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 16/54] fix: kernel_eval refused the coefficients returned by
 the kernel fits

---
 VolterraBasis/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 084c3a0..8a4a39d 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -291,6 +291,8 @@ class ModelBase(object):
         else:  # Check shape
             if coeffs_ker.shape[1:] != self.kernel.shape[1:]:
                 raise Exception("Wrong shape of the coefficients. Get {} but expect {}.".format(coeffs_ker.shape[1:], self.kernel.shape[1:]))
+            if not isinstance(coeffs_ker, xr.DataArray):  # E.g. result of a fit
+                coeffs_ker = xr.DataArray(coeffs_ker, dims=self.kernel.dims)
 
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
         if self.rank_projection:
-- 
2.43.0


From 6051e2e62a6704818ed2ff062aa032f608448521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 17/54] fix: kernel_eval failed on a model read back from a
 netCDF file

---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 8a4a39d..7746d45 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -53,8 +53,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From 47ee75883f97efed0dcdebcec5da7fd1bd52c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 18/54] fix: save_model failed when the kernel gram and the
 kernel have different sizes

---
 VolterraBasis/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 7746d45..1464015 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -382,6 +382,8 @@ class ModelBase(object):
         for key, dat in self.__dict__.items():
             if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
+                    if key in ["gram_kernel", "inv_mass_coeff"]:  # They can have an other size than the kernel
+                        dat = dat.rename({dim: dim.replace("dim_basis", "dim_basis_" + key) for dim in dat.dims})
                     coeffs.update({key: dat})
 
         return coeffs
@@ -398,9 +400,12 @@ class ModelBase(object):
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "eff_mass"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        for key in ["gram_kernel", "inv_mass_coeff"]:
+            if key in coeffs:
+                setattr(model, key, coeffs[key].rename({dim: dim.replace("dim_basis_" + key, "dim_basis") for dim in coeffs[key].dims}))
         if "rank_projection" in coeffs:
             model.rank_projection = bool(coeffs["rank_projection"])
         if "method" in coeffs:
-- 
2.43.0


From 6316f9308d5278668e896eec6905bb26b4e89942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 19/54] fix: hybrid model assumed a single velocity component
 when splitting its kernel

---
 VolterraBasis/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 1464015..9d142e3 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -627,7 +627,7 @@ class Pos_gle_hybrid(Pos_gle):
     def __init__(self, *args, **kwargs):
         ModelBase.__init__(self, *args, **kwargs)
         self.N_basis_elt_force = self.N_basis_elt
-        self.N_basis_elt_kernel = self.N_basis_elt + 1
+        self.N_basis_elt_kernel = self.N_basis_elt + self.dim_x
         if self.basis.const_removed:
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
@@ -657,7 +657,7 @@ class Pos_gle_hybrid(Pos_gle):
         """
         if self.kernel is None:
             raise Exception("Kernel has not been computed.")
-        return self.kernel.sel(dim_basis=0)
+        return self.kernel.sel(dim_basis=0 if self.dim_x == 1 else slice(0, self.dim_x))
 
     def kernel_eval(self, x):
         """
@@ -668,7 +668,7 @@ class Pos_gle_hybrid(Pos_gle):
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        return xr.dot(self.kernel.sel(dim_basis=slice(1, None)), E.rename({"dim_x": "dim_x'"}))
+        return xr.dot(self.kernel.sel(dim_basis=slice(self.dim_x, None)), E.rename({"dim_x": "dim_x'"}))
         # return self.kernel["time_kernel"], np.einsum("jkd,ikl->ijld", E, self.kernel[:, 1:, :])  # Return the kernel as array (time x nb of evalution point x dim_obs x dim_x)
 
 
-- 
2.43.0


From e09b7163454f54977565d50bc73fa7372ca14b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 20/54] fix: correlation_direct of several series with
 themselves returned only the autocorrelations

---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..bdc2663 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # Same layout as correlation_ND
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From 40aaee68ab89e75a36aeb4b3c738731c18d190e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 21/54] fix: antiderivative of the linear basis ignored its
 centering and the order

---
 VolterraBasis/basis/_basis_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..6477289 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -4,6 +4,7 @@ This the main estimator module
 import numpy as np
 
 import scipy.interpolate
+import scipy.special
 import scipy.stats
 from ._data_describe import quick_describe, minimal_describe
 
@@ -46,7 +47,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return np.power(X - self.mean_, order + 1) / scipy.special.factorial(order + 1)
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 7f5ea1fbcb63f2bf5f02c7e085de5b35317fb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 22/54] fix: derivative of combined basis lost all but the
 first and last basis

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 6477289..760e374 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -257,8 +257,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From 6404186a10e9bebec22e5e45c2b56787fe20259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 23/54] fix: models that need the constant could not restore it
 in combined basis

---
 VolterraBasis/basis/_basis_features.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 760e374..a49a5b6 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -236,7 +236,15 @@ class FeaturesCombiner(TransformerMixin):
 
     def __init__(self, *basis):
         self.basis_set = basis
-        self.const_removed = np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @property
+    def const_removed(self):
+        return bool(np.any([b.const_removed for b in self.basis_set]))  # Check if one of the basis set have the constant removed
+
+    @const_removed.setter
+    def const_removed(self, value):
+        for b in self.basis_set:
+            b.const_removed = value
 
     def fit(self, describe_result):
         if isinstance(describe_result, np.ndarray):
-- 
2.43.0


From 7d2da8b2fa624535d892f7916f868bd0128d4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 24/54] fix: TensorialBasis2D of a single basis used the range
 of the second dimension for both

---
 VolterraBasis/basis/_multidim_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..a531654 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,7 @@
 """
 This the main estimator module
 """
+import copy
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +17,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = copy.deepcopy(b1)  # Each dimension has its own range
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From 10295a7f31afadfcc90cf16e1d483872df0b482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 25/54] fix: periodic splines were not periodic

---
 VolterraBasis/basis/_local_features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_local_features.py b/VolterraBasis/basis/_local_features.py
index edb32fb..1821f63 100644
--- a/VolterraBasis/basis/_local_features.py
+++ b/VolterraBasis/basis/_local_features.py
@@ -17,8 +17,9 @@ def _get_bspline_basis(knots, degree=3, periodic=False):
     knots, coeffs, degree = scipy.interpolate.splrep(knots, y_dummy, k=degree, per=periodic)
     ncoeffs = len(coeffs)
     bsplines = []
-    for ispline in range(nknots):
-        coeffs = np.asarray([1.0 if ispl == ispline else 0.0 for ispl in range(ncoeffs)])
+    nsplines = nknots - 1 if periodic else nknots  # The last knot is the image of the first one
+    for ispline in range(nsplines):
+        coeffs = np.asarray([1.0 if (ispl % nsplines if periodic else ispl) == ispline else 0.0 for ispl in range(ncoeffs)])
         bsplines.append((knots, coeffs, degree))
     return bsplines
 
-- 
2.43.0


From 83d4c37242e6fc7af5134d940b9765318b7c7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 26/54] fix: finite element basis modified the trajectory at
 the end of the mesh

---
 VolterraBasis/basis/_fem_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..b082970 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -41,8 +41,8 @@ class ElementFinder:
         Assuming X is nsamples x 1
         """
         maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        x = np.where(maxix, X[:, 0] - 1e-10, X[:, 0])  # special case in np.digitize
+        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From b05ef390306f3258a6f524bcaeb88a45ec74835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 27/54] fix: gradient of finite element basis mixed up
 components and points in 2D and 3D

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index b082970..63f9b96 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -123,7 +123,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.repeat(np.arange(nsamples), dim), self.basis_fem.Nbfun), np.repeat(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.tile(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 012012012, comme dans phis
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From bcbcdccd0d52853e67614a5cfb0677b2aaaff38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 28/54] fix: finite element basis failed in 3D

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 63f9b96..f6ba6bc 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -63,7 +63,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From a265f5cc670c9892056cf78589ed440d2415e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 29/54] fix: element search failed on small meshes and could
 miss the element of a point

---
 VolterraBasis/basis/_fem_features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index f6ba6bc..054f3bb 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -48,13 +48,17 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        nb_neighbors = self.tree.n if _search_all else min(5, self.tree.n)
+        tree_query = self.tree.query(X, nb_neighbors)[1].reshape(X.shape[0], -1)
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
-            element_inds[n] = i_e[np.argmax(inside, axis=0)]
+            if not _search_all and not inside.any():
+                element_inds[n] = self.find_element_ND(X[n : n + 1], _search_all=True)[0]
+            else:
+                element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
     def inside_2D(self, X):  # Do something more general from Refdom?
-- 
2.43.0


From 6f9e16b3dfbde513bbcec8c5508f8f38ffa3b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 30/54] fix: compute_1d_fe did not count the smallest position

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 654cf73..3de2ea5 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -198,7 +198,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
     count_bins = 0
     for xva in xva_list:
         # add v^2 to the list
-        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins)
+        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins, include_lowest=True)
         # print(ds_groups)
         mean_val += ds_groups.sum().fillna(0)
         count_bins += ds_groups.count().fillna(0)
-- 
2.43.0


From ad7248661b3902faa62bbeca47b23ae274bb7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 31/54] fix: from VolterraBasis import * failed on names that
 do not exist

---
 VolterraBasis/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 3de2ea5..446506f 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -13,8 +13,7 @@ from .correlation import correlation_ND as correlation_fft
 from .correlation import correlation_direct_ND as correlation_direct
 
 __all__ = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid"]
-__all__ += ["Pos_gle_overdamped", "Pos_gle_overdamped_const_kernel"]
-__all__ += ["Trajectories_handler"]
+__all__ += ["Pos_gle_overdamped"]
 __all__ += ["Estimator_gle", "Integrator_gle"]
 __all__ += ["correlation_fft", "correlation_direct"]
 __all__ += ["memory_fit", "memory_fit_eval", "memory_fit_kernel", "memory_kernel_eval"]
-- 
2.43.0


From 33998d0fce6bc75febd45b38939b50ad0ae49425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 32/54] fix: prony fit failed when asked to keep all the terms
 of a full rank series

---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..8dd6402 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < len(s_svd):
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < len(s_svd):
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From a1aee695ba81f475e177e4b3f207f7eb4f4f1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 33/54] fix: non_uniform_line of ratio 1 returned NaN

---
 VolterraBasis/basis/_mesh_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 439d147..ece160a 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -28,6 +28,8 @@ def non_uniform_line(x_start, x_end, num_elements, ratio):
         x_end: This is a second param.
     """
 
+    if ratio == 1:
+        return uniform_line(x_start, x_end, num_elements)
     # Create grid points between 0 and 1
     h = (ratio - 1) / (ratio ** num_elements - 1)
     x = np.append([0], h * np.cumsum(ratio ** np.arange(num_elements)))
-- 
2.43.0


From de86c3c582e12ffaf765b9091981f6bd322e4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 34/54] fix: Karhunen-Loeve noise did not have the requested
 covariance

---
 VolterraBasis/gle_integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..e0ac562 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -104,7 +104,8 @@ class KarhunenLoeveNoiseGenerator:
 
         self.lenght = np.min(kernel.shape)
 
-        self.eigvals, self.eigvect = np.linalg.eig(self.kernel)
+        self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)
+        self.eigvals = np.maximum(self.eigvals, 0.0)  # Remove round-off, a covariance is positive
 
     def generate(self, size=None):
         if size is None:
@@ -115,7 +116,7 @@ class KarhunenLoeveNoiseGenerator:
             # TODO: Use periodic assumption
         white_noise = self.rng(size=self.lenght)
         colored_noise = self.eigvect @ np.diag(np.sqrt(self.eigvals)) @ white_noise
-        return colored_noise[:size] * np.sqrt(self.dt)
+        return colored_noise[:size]
 
 
 class PosColoredNoiseGenerator:
-- 
2.43.0


From 94da1aa77a9f7d2f16804b5fc0e4a2ffcf3cc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 35/54] fix: colored noise was too weak at the beginning and
 the end of the trajectory

---
 VolterraBasis/gle_integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index e0ac562..12b0710 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,11 +56,11 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        colored_noise = np.empty((size, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
-            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
-        return colored_noise[:size] * np.sqrt(self.dt)
+            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)  # So that there is no edge effect
+            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
+        return colored_noise * np.sqrt(self.dt)
 
 
 class KarhunenLoeveNoiseGenerator:
-- 
2.43.0


From c79550975e3f99a9df9841868cbba15bab6223c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 36/54] fix: Integrator_gle failed without a model or with a
 truncated kernel

---
 VolterraBasis/gle_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 12b0710..8320c1f 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -203,6 +203,7 @@ class Integrator_gle(object):
             self.kernel = kwargs["kernel"]
             self.dt = kwargs["dt"]
             if self.kernel.ndim == 1:
+                self.kernel = self.kernel.reshape(-1, 1, 1)
                 self.dim = 1
                 self.N_basis_elt_kernel = 1
             elif self.kernel.ndim == 2:
@@ -224,7 +225,7 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, np.arange(self.trunc_kernel) * self.dt, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 45e5c006f89e338341ed99ddd95c5450d32baa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 37/54] fix: force_eval and pmf_eval refused coefficients given
 as an array

---
 VolterraBasis/models.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 9d142e3..7b59ac1 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -20,6 +20,15 @@ def _convert_input_array_for_evaluation(array, dim_x):
         return xr.Dataset({"x": (["time", "dim_x"], x)})
 
 
+def _convert_coeffs_for_evaluation(coeffs):
+    """
+    Coefficients given by the user can be a simple array
+    """
+    if isinstance(coeffs, xr.DataArray):
+        return coeffs
+    return xr.DataArray(coeffs, dims=("dim_basis", "dim_obs"))
+
+
 def matmulPrange(P_range, E):
     """
     Reduce basis size when needed
@@ -221,7 +230,7 @@ class ModelBase(object):
             if coeffs.shape != (self.N_basis_elt_force, self.dim_obs):
                 warnings.warn("Wrong shape of the coefficients. Get {} but expect {}.".format(coeffs.shape, (self.N_basis_elt_force, self.dim_obs)))
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="force")
-        return xr.dot(E, coeffs).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
+        return xr.dot(E, _convert_coeffs_for_evaluation(coeffs)).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
 
     def pmf_eval(self, x, coeffs=None, kT=1.0, set_zero=True):
         """
@@ -244,7 +253,7 @@ class ModelBase(object):
         else:
             eff_mass = np.asarray(self.eff_mass)
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
-        pmf = -1 * xr.dot(E, coeffs).values @ eff_mass / kT
+        pmf = -1 * xr.dot(E, _convert_coeffs_for_evaluation(coeffs)).values @ eff_mass / kT
         return pmf - float(set_zero) * np.min(pmf)
 
     def inv_mass_eval(self, x, coeffs=None, set_zero=True):
@@ -552,7 +561,7 @@ class Pos_gle_with_friction(Pos_gle):
         else:
             eff_mass = np.asarray(self.eff_mass)
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
-        pmf = -1 * xr.dot(E, coeffs).values @ eff_mass / kT
+        pmf = -1 * xr.dot(E, _convert_coeffs_for_evaluation(coeffs)).values @ eff_mass / kT
         return pmf - float(set_zero) * np.min(pmf)
 
 
-- 
2.43.0


From 14b65184e31e67c421214a307e5d48c1e78b196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 38/54] fix: hybrid model summed the time derivative of its
 basis over the whole trajectory

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 7b59ac1..1b08c4e 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -654,7 +654,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 6fb486e86b284ea8323b273d3f3fb6b15cc4022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:01 +0000
Subject: [PATCH 39/54] fix: trajectories in memory and out of core could not
 be mixed in one estimator

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index cc211f2..be0cc77 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -178,7 +178,7 @@ class Estimator_gle(object):
         res = [0.0] * len(array_res[0])
         for weight, single_res in zip(self.weights, array_res):
             for i, arr in enumerate(single_res):
-                res[i] += arr * weight / self.weightsum
+                res[i] = res[i] + arr * weight / self.weightsum
         return res
 
     def _loop_over_trajs_parallel(self, func, model, **kwargs):
@@ -191,7 +191,7 @@ class Estimator_gle(object):
         res = [0.0] * len(array_res[0])
         for weight, single_res in zip(self.weights, array_res):
             for i, arr in enumerate(single_res):
-                res[i] += arr * weight / self.weightsum
+                res[i] = res[i] + arr * weight / self.weightsum
         return res
 
     def compute_basis_mean(self, basis_type="force"):
-- 
2.43.0


From a28e83d713a44ed6575272a07ef47ca261a8b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:26 +0000
Subject: [PATCH 40/54] fix: prony fit failed on series whose terms alternate
 in sign

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 8dd6402..da058da 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From 3e9d70df358d141a3cc7d55a4e3bca9d950cebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:06 +0000
Subject: [PATCH 41/54] fix: element search in 1D assumed that the vertices are
 sorted

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 054f3bb..9c36bc0 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -22,7 +22,7 @@ class ElementFinder:
             self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
             ix = np.argsort(mesh.p)
             self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            self.bins_idx = np.argsort(ix[0])[mesh.t].min(axis=0)  # Rank of the leftmost vertex of each element
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
-- 
2.43.0


From 7e1e2818e4a3a8543c1b5ff65c6730e69701c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:06 +0000
Subject: [PATCH 42/54] fix: end of a 1D mesh was searched at a fixed distance
 whatever the size of the mesh

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 9c36bc0..2287bad 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -41,7 +41,7 @@ class ElementFinder:
         Assuming X is nsamples x 1
         """
         maxix = X[:, 0] == self.max_point
-        x = np.where(maxix, X[:, 0] - 1e-10, X[:, 0])  # special case in np.digitize
+        x = np.where(maxix, np.nextafter(X[:, 0], -np.inf), X[:, 0])  # special case in np.digitize
         return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
-- 
2.43.0


From e67b91f8823e6e2912dbcaa30dc81909700dd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:44 +0000
Subject: [PATCH 43/54] fix: points on a face of a mesh were attributed to
 another element because of rounding errors

---
 VolterraBasis/basis/_fem_features.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 2287bad..7643657 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -57,6 +57,9 @@ class ElementFinder:
             inside = self.inside(X_loc)
             if not _search_all and not inside.any():
                 element_inds[n] = self.find_element_ND(X[n : n + 1], _search_all=True)[0]
+            elif not inside.any():  # Because of rounding errors (or if outside of the mesh), take the closest in barycentric coordinates
+                bary = np.concatenate((X_loc, 1 - X_loc.sum(axis=0, keepdims=True)))
+                element_inds[n] = i_e[np.argmax(bary.min(axis=0).ravel())]
             else:
                 element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
-- 
2.43.0


From 86ca15634f43024dd15f12fbf3be5bc5d9085978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 44/54] fix: check_volterra_inversion ignored the time step of
 midpoint kernels

---
 VolterraBasis/gle_estimation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index be0cc77..77df78b 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -375,13 +375,15 @@ class Estimator_gle(object):
         """
         if self.model.kernel is None:
             raise Exception("Kernel has not been computed.")
-        dt = self.dt
-        res_int = np.zeros(self.bkdxcorrw.shape)
+        stride = {"midpoint": 2, "midpoint_w_richardson": 6}.get(self.model.method, 1)  # Those methods give the kernel on a coarser grid
+        dt = stride * self.dt
+        bkbkcorrw, bkdxcorrw = self.bkbkcorrw[:, :, ::stride], self.bkdxcorrw[:, :, ::stride]
+        res_int = np.zeros(bkdxcorrw.shape)
         for n in range(self.model.kernel.shape[0]):
-            to_integrate = np.einsum("jki,ikl->ijl", self.bkbkcorrw[:, :, : n + 1][:, :, ::-1], self.model.kernel[: n + 1, :, :])
+            to_integrate = np.einsum("jki,ikl->ijl", bkbkcorrw[:, :, : n + 1][:, :, ::-1], self.model.kernel[: n + 1, :, :])
             res_int[:, :, n] = -1 * trapezoid(to_integrate, dx=dt, axis=0)
         if return_diff:
-            return np.abs(res_int - self.bkdxcorrw)
+            return np.abs(res_int - bkdxcorrw)
         else:
             return res_int
 
-- 
2.43.0


From 4d6a78692450403501c51e26863060299c376411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 45/54] fix: kernel of too short correlation functions was
 computed from values outside of the array

---
 VolterraBasis/gle_estimation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 77df78b..69f3004 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -316,6 +316,9 @@ class Estimator_gle(object):
         """
         if self.bkbkcorrw is None or self.bkdxcorrw is None:
             raise Exception("Need correlation functions to compute the kernel.")
+        min_length = {"rect": 2, "rectangular": 2, "midpoint": 2, "midpoint_w_richardson": 4}.get(method, 1)
+        if self.bkbkcorrw.shape[-1] < min_length:
+            raise Exception("Need at least {} points of the correlation functions to compute the kernel using {} method, please increase trunc.".format(min_length, method))
         if self.verbose:
             print("Compute memory kernel using {} method".format(method))
         time = np.arange(self.model.trunc_ind) * self.dt
-- 
2.43.0


From 21cb7372b6e0366df540c597c7183558f33ab9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 46/54] fix: a basis of null rank was only reported when it was
 expected

---
 VolterraBasis/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 1b08c4e..59cb63b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -114,10 +114,10 @@ class ModelBase(object):
         rank = np.count_nonzero(S > rank_tol, axis=-1)
         # print(rank, U.shape, S.shape, V.shape)
         if rank < self.N_basis_elt_kernel:
-            if rank != self.N_basis_elt_kernel - self.dim_x:
-                print("Warning: rank is different than expected. Current {}, Expected {}. Consider checking your basis or changing the tolerance".format(rank, self.N_basis_elt_kernel - self.dim_x))
-            elif rank == 0:
+            if rank == 0:
                 raise Exception("Rank of basis is null.")
+            elif rank != self.N_basis_elt_kernel - self.dim_x:
+                print("Warning: rank is different than expected. Current {}, Expected {}. Consider checking your basis or changing the tolerance".format(rank, self.N_basis_elt_kernel - self.dim_x))
             # Construct projection
             P_range = U[:, :rank].T  # # Save the matrix for future use, matrix is rank x N_basis_elt_kernel
             # Faster to do one product in order
-- 
2.43.0


From 59eb3a6a5a6eae2f26b9d20aa574dcf003353daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 47/54] fix: flux_from_volterra returned zeros for an unknown
 method

---
 VolterraBasis/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 59cb63b..efd6b5a 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -357,6 +357,8 @@ class ModelBase(object):
                 res_int[n, :] = -1 * (trapz_integral(self.dt, corrs_past, kernel_past) + 0.5 * last_point)
             elif method == "simpson":
                 res_int[n, :] = -1 * (simpson_integral(self.dt, corrs_past, kernel_past) + last_point / 3.0)
+            else:
+                raise ValueError("Method for flux computation is not in {rect, trapz, simpson}")
 
         return force_term, res_int
 
-- 
2.43.0


From f76a98e03526878e34cde3726c738d1f171c3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 48/54] fix: Volterra equation was evolved with the wrong time
 step for midpoint kernels

---
 VolterraBasis/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index efd6b5a..1b23c85 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -340,6 +340,8 @@ class ModelBase(object):
         else:
             force_coeff = np.asarray(force_coeff)
         if kernel is None:
+            if self.method in ["midpoint", "midpoint_w_richardson"]:  # Time step of the kernel is not dt
+                raise ValueError("Cannot compute flux when kernel computed with method {}".format(self.method))
             kernel = self.kernel.to_numpy()
         else:
             kernel = np.asarray(kernel)
@@ -758,6 +760,9 @@ class Pos_gle_overdamped(ModelBase):
         if G0.shape[0] != self.kernel.shape[-1]:
             raise ValueError("Wrong shape for initial value")
 
+        if self.method in ["midpoint", "midpoint_w_richardson"]:  # Time step of the kernel is not dt
+            raise ValueError("Cannot evolve volterra equation when kernel computed with method {}".format(self.method))
+
         if trunc_ind is None or trunc_ind <= 0:
             trunc_ind = self.kernel.shape[0]
 
-- 
2.43.0


From 82c7dbf9f6a54d6819b0e86d0d48db01439ce1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:26 +0000
Subject: [PATCH 49/54] fix: GLE was integrated with the wrong time step for
 midpoint kernels

---
 VolterraBasis/gle_integrate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 8320c1f..0870575 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -232,6 +232,9 @@ class Integrator_gle(object):
         Copy everything from the estimator
         """
 
+        if gle_model.method in ["midpoint", "midpoint_w_richardson"]:  # Time step of the kernel is not dt
+            raise ValueError("Cannot integrate the GLE when kernel computed with method {}".format(gle_model.method))
+
         self.basis = gle_model.basis
 
         if trunc_kernel is None:
-- 
2.43.0


From c5b93d9574e976b2fc77fa8c91b05a9116e748f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:11 +0000
Subject: [PATCH 50/54] fix: evaluate a Prony series at a single time

---
 VolterraBasis/fit_prony.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index da058da..aaeae6b 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -191,10 +191,10 @@ def prony_series_eval(times, y0, A):
     A :
         Result of the prony fitting.
     """
-    times = np.asarray(times).squeeze()
+    times = np.ravel(times)
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
-    for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
+    for i, t in enumerate(times):  # TODO: Implement with linear system
         fit[i] = y0 * scipy.linalg.expm(t * A)[0, 0]
     return fit
 
-- 
2.43.0


From 8ffa0132ff3e0b0be52d5a20221e0cef7fcdf673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:11 +0000
Subject: [PATCH 51/54] fix: no element of zero length at the ends of a
 centroid driven line

---
 VolterraBasis/basis/_mesh_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index ece160a..db706c9 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -66,8 +66,8 @@ def centroid_driven_line(data, bins=100):
     """
     kmeans = KMeans(n_clusters=bins, random_state=0).fit(data)
     # For 1D, we ravel and sort the cluster center
-    # We have to add the boundary
-    mesh = np.concatenate((np.array([data.min()]), np.sort(kmeans.cluster_centers_.ravel()), np.array([data.max()])))
+    # We have to add the boundary, a centroid that lies on it is not repeated
+    mesh = np.unique(np.concatenate((np.array([data.min()]), kmeans.cluster_centers_.ravel(), np.array([data.max()]))))
     return mesh
 
 
-- 
2.43.0


From 923205313b644f6818fec77b58d6b3c3d6dbf830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:54 +0000
Subject: [PATCH 52/54] fix: evaluate the Prony series of a kernel at a single
 time

---
 VolterraBasis/fit_prony.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index aaeae6b..f9d40f9 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -238,13 +238,13 @@ def prony_series_kernel_eval(times, list_A):
     list_A:
         The result of fit_kernel
     """
-    times = np.asarray(times).squeeze()
+    times = np.ravel(times)
     nb_times = times.shape[0]
     dim_x = len(list_A)
     dim_basis = len(list_A[0])
     fit = np.zeros((nb_times, dim_basis, dim_x))
     for d in range(dim_x):
         for k in range(dim_basis):
-            for i, t in enumerate(times.squeeze()):
+            for i, t in enumerate(times):
                 fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From 9b5933615ce8a51176d2a94d3ee872651b075563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 53/54] fix: direct correlation of integers without overflow

---
 VolterraBasis/correlation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index bdc2663..89ce45e 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -44,8 +44,8 @@ def correlation_direct_1D(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    a = a.astype(np.result_type(a, float))  # Products of integers overflow
+    b = a if b is None else b.astype(np.result_type(b, float))
     res = np.zeros((len_trunc,))
     res[0] = np.dot(a, b) / len_dat
     for n in range(1, len_trunc):
@@ -63,8 +63,11 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
+    a = a.astype(np.result_type(a, float))  # Products of integers overflow
     if b is None:  # Same layout as correlation_ND
         a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
+    else:
+        b = b.astype(np.result_type(b, float))
     # TODO: vérifier le type de l'array a et créer un array vide du même type
     res = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
-- 
2.43.0


From 93074924c59f45398ead2d6d9b8c636508492128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 54/54] fix: powers of an integer ratio overflow in
 non_uniform_line

---
 VolterraBasis/basis/_mesh_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index db706c9..db654aa 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -30,6 +30,7 @@ def non_uniform_line(x_start, x_end, num_elements, ratio):
 
     if ratio == 1:
         return uniform_line(x_start, x_end, num_elements)
+    ratio = float(ratio)  # Powers of integers overflow
     # Create grid points between 0 and 1
     h = (ratio - 1) / (ratio ** num_elements - 1)
     x = np.append([0], h * np.cumsum(ratio ** np.arange(num_elements)))
-- 
2.43.0

