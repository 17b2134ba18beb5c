From 27a8973d9617c64bc88157c910976a84e441c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 01/13] fix: Newton solver must not retry forever on
 recoverable failures

A recoverable failure with a current Jacobian fell through the match and
repeated the outer loop unchanged, and a setup that never reports a current
Jacobian was retried without end. Retry once, otherwise return the failure.
---
 crates/nonlinear/src/newton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..9bc3212 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -144,12 +144,14 @@ where
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
                 Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
+                    // The retry itself (jbad) is never retried, otherwise this might loop forever.
+                    if !self.jcur && !jbad {
                         self.nconvfails += 1;
                         call_lsetup = true;
                         jbad = true;
                         continue 'outer;
                     }
+                    break 'outer retval;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From ce682caefce52765a63a751bbf13ac0299cd73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 02/13] fix: dense solve of a system of size zero must not
 underflow or index

n - 1 underflowed and b[0] was indexed for n = 0; there is nothing to solve.
---
 crates/linear/src/dense.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/linear/src/dense.rs b/crates/linear/src/dense.rs
index 3a34517..b526771 100644
--- a/crates/linear/src/dense.rs
+++ b/crates/linear/src/dense.rs
@@ -185,7 +185,7 @@ fn dense_get_rs<T, R, C, SA, SB, SC>(
     }
 
     // Solve Ly = b, store solution y in b
-    for k in 0..(n - 1) {
+    for k in 0..n.saturating_sub(1) {
         let col_k = mat_a.column(k);
         let bk = b[k];
         for i in (k + 1)..n {
@@ -202,7 +202,9 @@ fn dense_get_rs<T, R, C, SA, SB, SC>(
             b[i] -= col_k[i] * bk;
         }
     }
-    b[0] /= mat_a[(0, 0)];
+    if n > 0 {
+        b[0] /= mat_a[(0, 0)];
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 544790d94a86e718841e9b59ead3daaf77e8790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 03/13] fix: evaluate the Jacobian at the current time instead
 of time zero

---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..5843689 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        t: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                t,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..a3c9d1b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,8 +167,12 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+        self.lp.setup(
+            self.ida_tn,
+            self.ida_yy.view(),
+            self.ida_yp.view(),
+            res.view(),
+        );
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From 3b1c1c09e44c4cef575ac8554459930c4fd9405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 04/13] fix: report a failed linear solver setup as a
 recoverable failure instead of panicking

---
 src/ida_ls.rs  | 5 +++--
 src/ida_nls.rs | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 5843689..55fbbe6 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -235,7 +235,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +285,7 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        self.ls.setup(self.mat_j.view_mut())
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index a3c9d1b..5822c21 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -1,7 +1,7 @@
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
-use super::error::IdaError;
+use super::error::{IdaError, Recoverable};
 use super::ida_ls::IdaLProblem;
 use super::linear::LSolver;
 use super::nonlinear::{Error, NLProblem, NLSolver};
@@ -167,7 +167,7 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp.setup(
+        let retval = self.lp.setup(
             self.ida_tn,
             self.ida_yy.view(),
             self.ida_yp.view(),
@@ -184,6 +184,9 @@ where
 
         //if (retval < 0) return(IDA_LSETUP_FAIL);
         //if (retval > 0) return(IDA_LSETUP_RECVR);
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSetup,
+        })?;
 
         //return(IDA_SUCCESS);
 
-- 
2.43.0


From 7ba335339684e045e5ec12b1e9d4ec05008ac4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 05/13] fix: report a failed linear solve to the nonlinear
 solver instead of dropping it

---
 src/ida_ls.rs  | 4 +++-
 src/ida_nls.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 55fbbe6..c8467f1 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -303,7 +303,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -453,6 +454,7 @@ where
         */
 
         //return(0);
+        retval
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 5822c21..6186cf9 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -203,7 +203,7 @@ where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::DataMut<Elem = P::Scalar>,
     {
-        self.lp.solve(
+        let retval = self.lp.solve(
             delta.view_mut(),
             self.ida_ewt.view(),
             self.ida_yy.view(),
@@ -217,6 +217,9 @@ where
 
         //if (retval < 0) return(IDA_LSOLVE_FAIL);
         //if (retval > 0) return(IDA_LSOLVE_RECVR);
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSolve,
+        })?;
 
         Ok(())
     }
-- 
2.43.0


From a94fefeccbf877d92f54f8cdbd534622d75ee2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 06/13] fix: retrying the first step must rescale only the
 derivative column of the history

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..e13333d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1248,7 +1248,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From 2ffdf045f57a1842f794f018f987ee7232f0e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 07/13] fix: get_num_lin_iters always returned zero

---
 src/ida_io.rs | 3 +--
 src/ida_ls.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ida_io.rs b/src/ida_io.rs
index 1928bcb..e176f3b 100644
--- a/src/ida_io.rs
+++ b/src/ida_io.rs
@@ -95,8 +95,7 @@ where
 
     /// returns the cumulative number of linear iterations.
     pub fn get_num_lin_iters(&self) -> usize {
-        //self.nlp.lp.nli
-        0
+        self.nlp.lp.nli
     }
 
     /// returns the cumulative number of linear convergence failures.
diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index c8467f1..8eca609 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -46,7 +46,7 @@ where
     /// npe = total number of precond calls
     npe: usize,
     /// nli = total number of linear iterations
-    nli: usize,
+    pub(super) nli: usize,
     /// nps = total number of psolve calls
     nps: usize,
     /// ncfl = total number of convergence failures
-- 
2.43.0


From 9d645f53e2dcc1bc33d8549e58553c2193f048db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 08/13] fix: get_dky computes every coefficient of the
 derivative and stays inside its arrays

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e13333d..0f15291 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From 45e3d94dab3e8d1ddb2c839832c9ec77b529927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 09/13] fix: a nonlinear solver that does not converge is a
 recoverable step failure

---
 src/error.rs |  2 ++
 src/lib.rs   | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0055934..00c1bd9 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    NLSConverge,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 0f15291..133927c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1129,6 +1129,17 @@ where
 
         self.ida_phase = 1;
 
+        // A nonlinear solver that did not converge is a recoverable failure
+        let error = match error.downcast::<nonlinear::Error>() {
+            Ok(nonlinear::Error::ConvergenceRecover {}) => {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::NLSConverge,
+                })
+            }
+            Ok(error) => failure::Error::from(error),
+            Err(error) => error,
+        };
+
         // Try and convert the error into an IdaError
         error
             .downcast::<IdaError>()
-- 
2.43.0


From c7f8027445cf450e515f826e0b0d2ab9b9a49422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 10/13] fix: repeated recoverable residual failures end in the
 error that names them

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 133927c..a7eb9fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1233,7 +1233,7 @@ where
                             match rec_type {
                                 // return (IDA_REP_RES_ERR);
                                 Recoverable::Residual => {
-                                    Err(failure::Error::from(IdaError::ResidualFail {}))
+                                    Err(failure::Error::from(IdaError::RepeatedResidualError {}))
                                 }
 
                                 // return (IDA_CONSTR_FAIL);
-- 
2.43.0


From fee2205fd610b089165c19dc3299080f0d7be889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 11/13] fix: initial error weights that are not positive are
 rejected

---
 src/impl_solve.rs | 2 +-
 src/lib.rs        | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..6d13285 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -86,7 +86,7 @@ where
 
             // Check inputs to IDA for correctness and consistency */
             if !self.ida_setup_done {
-                self.initial_setup();
+                self.initial_setup()?;
                 self.ida_setup_done = true;
             }
 
diff --git a/src/lib.rs b/src/lib.rs
index a7eb9fe..d48428d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ where
     /// inputs and inputs to `init`/`reinit` that could not be done before.
     ///
     /// If no error is encountered, IDAInitialSetup returns IDA_SUCCESS. Otherwise, it returns an error flag and reported to the error handler function.
-    fn initial_setup(&mut self) {
+    fn initial_setup(&mut self) -> Result<(), IdaError> {
         //booleantype conOK;
         //int ier;
 
@@ -543,6 +543,9 @@ where
             self.ida_phi.index_axis(Axis(0), 0),
             self.nlp.ida_ewt.view_mut(),
         );
+        if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+            return Err(IdaError::BadErrorWeightVector {});
+        }
 
         /*
         // Check to see if y0 satisfies constraints.
@@ -564,7 +567,7 @@ where
         }
         */
 
-        //return(IDA_SUCCESS);
+        Ok(())
     }
 
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
-- 
2.43.0


From 8d6836428c48984a66577a2b077e2168280bd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 12/13] fix: root functions are watched from the first step on

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d48428d..88eba0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 491a63a5b63221e79a21100473122a8a09df72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 13/13] fix: the direction of a root is +1 where the function
 increases

---
 src/impl_r_check.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..90c49dd 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,12 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            // glo is the value before the root: a positive one is on its way down
+                            *iroots = if glo > P::Scalar::zero() {
+                                -P::Scalar::one()
+                            } else {
+                                P::Scalar::one()
+                            };
                         }
                     }
                 });
@@ -567,7 +572,12 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        // glo is the value before the root: a positive one is on its way down
+                        *iroots = if glo > P::Scalar::zero() {
+                            -P::Scalar::one()
+                        } else {
+                            P::Scalar::one()
+                        };
                     }
                 }
             });
-- 
2.43.0

