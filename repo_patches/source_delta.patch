From 7cfe73695eaedf8d1521b01a391184312af54a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 01/14] hooks: re-export private gadgets and proof parts under
 cfg(vp_hooks)

---
 .../pcs/multilinear_kzg/batching.rs           | 15 +++++++
 src/subroutines/poly_iop/structs.rs           | 11 ++++++
 src/tracker/mod.rs                            | 10 +++++
 src/zksql_poly_iop/join_reduction/mod.rs      |  7 +++-
 src/zksql_poly_iop/mod.rs                     | 39 ++++++++++++++++++-
 5 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..1569cea 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -343,3 +343,18 @@ mod tests {
         Ok(())
     }
 }
+
+/// Access to the parts of a batch proof, only for the verification harness.
+#[cfg(vp_hooks)]
+impl<E, PCS> BatchProof<E, PCS>
+where
+    E: Pairing,
+    PCS: PolynomialCommitmentScheme<E>,
+{
+    pub fn vp_sum_check_proof_mut(&mut self) -> &mut IOPProof<E::ScalarField> {
+        &mut self.sum_check_proof
+    }
+    pub fn vp_g_prime_proof_mut(&mut self) -> &mut PCS::Proof {
+        &mut self.g_prime_proof
+    }
+}
diff --git a/src/subroutines/poly_iop/structs.rs b/src/subroutines/poly_iop/structs.rs
index b0dae47..479e296 100644
--- a/src/subroutines/poly_iop/structs.rs
+++ b/src/subroutines/poly_iop/structs.rs
@@ -52,3 +52,14 @@ pub struct IOPVerifierState<F: PrimeField> {
     /// a list storing the randomness sampled by the verifier at each round
     pub(crate) challenges: Vec<F>,
 }
+
+/// Access to the prover's round message, only for the verification harness.
+#[cfg(vp_hooks)]
+impl<F: PrimeField> IOPProverMessage<F> {
+    pub fn vp_new(evaluations: Vec<F>) -> Self {
+        Self { evaluations }
+    }
+    pub fn vp_evaluations_mut(&mut self) -> &mut Vec<F> {
+        &mut self.evaluations
+    }
+}
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..5a1082b 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,13 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+
+/// Re-exports of crate-private tracker types, only for the verification harness.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use super::prover_tracker::ProverTracker;
+    pub use super::tracker_structs::{
+        CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim,
+    };
+    pub use super::verifier_tracker::VerifierTracker;
+}
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..cb85f1b 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,8 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use super::utils::calc_join_reduction_lr_sel_advice;
+}
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..efb8655 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,41 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+/// Re-exports of crate-private gadgets, only for the verification harness.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+    pub use bag_disjoint::{bag_disjoint::BagDisjointIOP, utils::calc_bag_disjoint_advice};
+    pub use bag_eq::bag_eq::BagEqIOP;
+    pub use bag_inclusion::{
+        bag_inclusion::BagInclusionIOP,
+        utils::{calc_bag_inclusion_advice_from_bag, calc_bag_inclusion_advice_from_mle},
+    };
+    pub use bag_multitool::bag_multitool::BagMultitoolIOP;
+    pub use bag_no_zeros::BagNoZerosIOP;
+    pub use bag_presc_perm::bag_presc_perm::BagPrescPermIOP;
+    pub use bag_sort::bag_sort::BagStrictSortIOP;
+    pub use bag_sum::bag_sum::BagSumIOP;
+    pub use bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice};
+    pub use cross_product::cross_product::CrossProductIOP;
+    pub use final_join_one_to_many::{
+        final_join_one_to_many::FinalJoinOneToManyIOP,
+        utils::{calc_final_join_one_to_many_index_transform, calc_index_transformed_bag},
+    };
+    pub use group_by::group_by::{
+        AggregationType, GroupByIOP, GroupByInstructionWithProvingAdvice,
+        GroupByInstructionWithVerifyingAdvice,
+    };
+    pub use index_transform::index_transform::IndexTransformIOP;
+    pub use join_reduction::{
+        join_reduction::JoinReductionIOP, vp_hooks::calc_join_reduction_lr_sel_advice,
+    };
+    pub use selector_valid::selector_valid::SelectorValidIOP;
+    pub use set_diff::set_diff::SetDiffIOP;
+    pub use set_disjoint::set_disjoint::SetDisjointIOP;
+    pub use set_intersect::set_intersect::SetIntersectIOP;
+    pub use set_union::set_union::SetUnionIOP;
+    pub use util::prelude::*;
+}
-- 
2.43.0


From eac938e74d961a5be4d9a40c0ae3a8724db56bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 02/14] hooks: let the harness play a dishonest prover at
 commit points, under cfg(vp_hooks)

---
 src/tracker/mod.rs            | 15 +++++++++++++++
 src/tracker/prover_tracker.rs |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 5a1082b..a129a41 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -19,4 +19,19 @@ pub mod vp_hooks {
         CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim,
     };
     pub use super::verifier_tracker::VerifierTracker;
+
+    use std::{any::Any, cell::RefCell};
+    thread_local! {
+        /// when set, called with every polynomial a prover is about to commit
+        /// (a dishonest prover); on by choice of the harness, per thread
+        pub static TAMPER: RefCell<Option<Box<dyn FnMut(&mut dyn Any)>>> = RefCell::new(None);
+    }
+    pub(crate) fn tamper<T: 'static>(mut polynomial: T) -> T {
+        TAMPER.with(|t| {
+            if let Some(f) = t.borrow_mut().as_mut() {
+                f(&mut polynomial)
+            }
+        });
+        polynomial
+    }
 }
diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..3cd9f0a 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -115,6 +115,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         &mut self,
         polynomial: DenseMultilinearExtension<E::ScalarField>,
     ) -> Result<TrackerID, PCSError> {
+        #[cfg(vp_hooks)]
+        let polynomial = crate::tracker::vp_hooks::tamper(polynomial);
         // commit to the p[olynomial
         let commitment = PCS::commit(self.pcs_param.clone(), &polynomial)?;
 
-- 
2.43.0


From 934fe021102345942f0a640aedea4c3f0b7a2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 03/14] fix: reject proofs whose batch opening does not verify

verify_claims dropped the verdict of batch_verify. Honest sessions with
polynomials of different sizes failed that check unnoticed, because the
prover extended small polynomials at the back while their KZG commitments
denote the front extension.
---
 src/tracker/prover_tracker.rs   | 2 +-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 3cd9f0a..d84f228 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -498,7 +498,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // has to be the front: the commitment to the small polynomial is also the commitment to this extension
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..a87f355 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidVerifier("the batch opening proof does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 796ecc81a067040256ae435781b47ddcbdf47a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 04/14] fix: drop the last added_nv coordinates in the
 verifier's increase_nv_back

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index a87f355..cec2295 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From e01a823126420ca5616ccdc89efc72ad1cf5aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 05/14] fix: compare ids when comparing tracked commitments

---
 src/tracker/verifier_wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_wrapper.rs b/src/tracker/verifier_wrapper.rs
index 5056fce..135f39d 100644
--- a/src/tracker/verifier_wrapper.rs
+++ b/src/tracker/verifier_wrapper.rs
@@ -173,7 +173,7 @@ pub struct TrackedComm<E: Pairing, PCS: PolynomialCommitmentScheme<E>> {
 }
 impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> PartialEq for TrackedComm<E, PCS> {
     fn eq(&self, other: &Self) -> bool {
-        Rc::ptr_eq(&self.tracker, &other.tracker)
+        self.id == other.id && Rc::ptr_eq(&self.tracker, &other.tracker)
     }
 }
 impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedComm<E, PCS> {
-- 
2.43.0


From 8e2331404915f4828e447c4b9b31e8989aaac87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/14] fix: split bags by their sorted active values, not by
 their raw rows

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..9988754 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,34 +62,26 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
-    }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
-    }
+    l_evals.extend_from_slice(&sorted_a_evals[a_counter..]);
+    r_evals.extend_from_slice(&sorted_b_evals[b_counter..]);
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0


From 29ca063b0dccb6ce925a599821cd9b5e25b5338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 07/14] fix: combine the columns of a row linearly instead of
 multiplying them

The product of the scaled columns (and the selector) is zero as soon as one
column of a row is zero, and is the same for every permutation of the columns
up to a constant, so a transformed table could contain rows its input never
had.
---
 src/zksql_poly_iop/index_transform/utils.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..51e629d 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table.col_vals.is_empty() || table.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_prover_agg Error: table has the wrong number of columns".to_string()));
+    }
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +38,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table_comm.col_vals.is_empty() || table_comm.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_verifier_agg Error: table has the wrong number of columns".to_string()));
+    }
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From 2ccb690ac12bd79c7e70dd9fd1bdce35952bde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 08/14] fix: open and verify a batch of one polynomial

log2(1) = 0 challenges are drawn for a single polynomial, and
build_eq_x_r_vec refuses an empty point, so neither multi_open nor
batch_verify accepted a batch of one.
---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 1569cea..6dbede7 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -22,6 +22,7 @@ use crate::{
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
 
+use ark_ff::PrimeField;
 use ark_std::{end_timer, log2, start_timer, One, Zero};
 use std::{collections::BTreeMap, iter, marker::PhantomData, ops::Deref, sync::Arc};
 use crate::transcript::IOPTranscript;
@@ -40,6 +41,14 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// eq(t, i) for every index i; a single polynomial needs no challenge and has weight one
+fn eq_t_list<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -72,7 +81,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = eq_t_list(t.as_ref())?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -207,7 +216,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = eq_t_list(t.as_ref())?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0


From 7043bc0b0b52de798625842164e2ec4354aaf7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 09/14] fix: bind points and evaluations before combining batch
 openings

The challenge t that combines the single evaluations was drawn before the
evaluations were in the transcript: knowing t, a prover could choose wrong
evaluations with the right combination.
---
 .../pcs/multilinear_kzg/batching.rs           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 6dbede7..52df240 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -41,6 +41,22 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// Binds the statement (which polynomial has which value at which point) before
+/// the challenge that combines the single evaluations is drawn
+fn append_evals_to_transcript<F: PrimeField>(
+    points: &[Vec<F>],
+    evals: &[F],
+    transcript: &mut IOPTranscript<F>,
+) -> Result<(), PCSError> {
+    for point in points {
+        transcript.append_serializable_element("point".as_ref(), point)?;
+    }
+    for eval in evals {
+        transcript.append_field_element("eval".as_ref(), eval)?;
+    }
+    Ok(())
+}
+
 /// eq(t, i) for every index i; a single polynomial needs no challenge and has weight one
 fn eq_t_list<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
     if t.is_empty() {
@@ -77,6 +93,8 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    append_evals_to_transcript(points, evals, transcript)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -208,6 +226,8 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    append_evals_to_transcript(points, &proof.f_i_eval_at_point_i, transcript)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From b0a90b24d3060ce9359f7b4bee5960c36e936807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 10/14] fix: bind the claimed sums before combining the
 sumcheck claims

The challenges that combine the claims did not depend on the claimed sums, so
a prover who knew them could choose wrong sums with the right combination.
---
 src/tracker/prover_tracker.rs   | 5 +++++
 src/tracker/verifier_tracker.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index d84f228..0abc17f 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -548,6 +548,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
 
         let nv = self.equalize_materialized_poly_nv();
 
+        // the claimed sums have to be fixed before any challenge that combines the claims is drawn
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum).unwrap();
+        }
+
         // 1)   aggregate the zerocheck claims into a single MLE
         //      Then convert the zerocheck_agg_poly to a sumcheck
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index cec2295..ba20fe9 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -367,6 +367,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
 
+        // the claimed sums have to be fixed before any challenge that combines the claims is drawn
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum).unwrap();
+        }
+
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
 
-- 
2.43.0


From f8a27516da1299e526dc958b9a2c9257e6fc6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 11/14] fix: return the sum column of a group by

Only counts were pushed to the result table, so the proven sums could not be
reached from it.
---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From c58c05704197863ef2ccb592136b85ee90882e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 12/14] fix: refuse KZG opening proofs with a wrong number of
 elements

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..5328a12 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -283,6 +283,11 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    // there is exactly one quotient per variable
+    if proof.proofs.len() != num_var {
+        return Ok(false);
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let scalar_size = E::ScalarField::MODULUS_BIT_SIZE as usize;
-- 
2.43.0


From b1523d6e77617aec8fe74fbab60399bcd8f7989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 13/14] fix: check a batch opening at the point the sumcheck
 ends at

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 52df240..c299239 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -273,6 +273,10 @@ where
             ));
         },
     };
+    // g' has to be opened where the sumcheck ended, not at a point of the prover's choice
+    if subclaim.point != a2 {
+        return Ok(false);
+    }
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From ace30f67d52362f583f90a41a20aeb0c0b32eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 14/14] fix: one-to-many join refuses join columns out of range
 and a wrong number of transformed columns

---
 .../final_join_one_to_many.rs                      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..6e18931 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -60,6 +60,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedPoly<E, PCS>>,
     ) -> Result<Table<E, PCS>, PolyIOPErrors> {
+        if transformed_a_cols.len() != table_a.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters("FinalJoinOneToManyIOP Error: wrong number of transformed table_a columns".to_string()));
+        }
+        if a_join_col_index >= table_a.col_vals.len() || b_join_col_index >= table_b.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters("FinalJoinOneToManyIOP Error: join column index is out of range".to_string()));
+        }
+
         // sanity check that the table_a join_col does not have duplicates, since the IOP is not sound otherwise
         #[cfg(debug_assertions)] 
         {
@@ -135,6 +142,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedComm<E, PCS>>,
     ) -> Result<TableComm<E, PCS>, PolyIOPErrors> {
+        if transformed_a_cols.len() != table_a.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters("FinalJoinOneToManyIOP Error: wrong number of transformed table_a columns".to_string()));
+        }
+        if a_join_col_index >= table_a.col_vals.len() || b_join_col_index >= table_b.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters("FinalJoinOneToManyIOP Error: join column index is out of range".to_string()));
+        }
+
         // set up the result table
         let mut res_table_col_polys = transformed_a_cols.clone();
         res_table_col_polys.append(&mut table_b.col_vals.clone());
-- 
2.43.0

