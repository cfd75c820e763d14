From 8fd1d828fc85b5ce1c7d84b04336b4fbb828133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 01/28] verif hook: expose tracker internals under
 cfg(zksql_verif)

---
 src/tracker/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..5184d73 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,13 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+
+
+/// Re-exports of the underlying trackers and of the compiled proof for the
+/// external verification harness.
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::prover_tracker::ProverTracker;
+    pub use super::tracker_structs::{CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim};
+    pub use super::verifier_tracker::VerifierTracker;
+}
-- 
2.43.0


From 0d5a1fd4b1e1c963de6a952e7125e979a26f4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 02/28] verif hook: re-export private protocol modules under
 cfg(zksql_verif)

---
 src/zksql_poly_iop/join_reduction/mod.rs |  7 +++++-
 src/zksql_poly_iop/mod.rs                | 29 +++++++++++++++++++++++-
 src/zksql_poly_iop/util/mod.rs           |  7 +++++-
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..ba09206 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,8 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::utils::*;
+}
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..3cb02b9 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,31 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+/// Re-exports of the private protocol modules for the external verification harness.
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::bag_disjoint::{bag_disjoint::*, utils::*};
+    pub use super::bag_eq::bag_eq::*;
+    pub use super::bag_inclusion::{bag_inclusion::*, utils::*};
+    pub use super::bag_multitool::bag_multitool::*;
+    pub use super::bag_no_zeros::*;
+    pub use super::bag_presc_perm::bag_presc_perm::*;
+    pub use super::bag_sort::bag_sort::*;
+    pub use super::bag_sum::bag_sum::*;
+    pub use super::bag_supp::{bag_supp::*, utils::*};
+    pub use super::cross_product::{cross_product::*, utils::*};
+    pub use super::final_join_one_to_many::{final_join_one_to_many::*, utils::*};
+    pub use super::group_by::group_by::*;
+    pub use super::index_transform::{index_transform::*, utils::*};
+    pub use super::join_reduction::join_reduction::*;
+    pub use super::join_reduction::verif_hooks::*;
+    pub use super::selector_valid::selector_valid::*;
+    pub use super::set_diff::set_diff::*;
+    pub use super::set_disjoint::set_disjoint::*;
+    pub use super::set_intersect::set_intersect::*;
+    pub use super::set_union::set_union::*;
+    pub use super::util::prelude::*;
+    pub use super::util::verif_hooks::*;
+}
diff --git a/src/zksql_poly_iop/util/mod.rs b/src/zksql_poly_iop/util/mod.rs
index e281c82..a960201 100644
--- a/src/zksql_poly_iop/util/mod.rs
+++ b/src/zksql_poly_iop/util/mod.rs
@@ -1,3 +1,8 @@
 pub mod prelude;
 mod intermed_bag_calc;
-mod multiplicity_count;
\ No newline at end of file
+mod multiplicity_count;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::intermed_bag_calc::*;
+}
-- 
2.43.0


From 2f9b1563b5f9c177f3e5702e26249ef42fbe3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 03/28] verif hook: raw access to proof messages under
 cfg(zksql_verif)

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 15 +++++++++++++++
 src/subroutines/poly_iop/structs.rs             | 14 ++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..4c4e21d 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -40,6 +40,21 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// Raw access to the batch proof for the external verification harness.
+#[cfg(zksql_verif)]
+impl<E, PCS> BatchProof<E, PCS>
+where
+    E: Pairing,
+    PCS: PolynomialCommitmentScheme<E>,
+{
+    pub fn verif_parts(&self) -> (&IOPProof<E::ScalarField>, &PCS::Proof) {
+        (&self.sum_check_proof, &self.g_prime_proof)
+    }
+    pub fn verif_parts_mut(&mut self) -> (&mut IOPProof<E::ScalarField>, &mut PCS::Proof) {
+        (&mut self.sum_check_proof, &mut self.g_prime_proof)
+    }
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
diff --git a/src/subroutines/poly_iop/structs.rs b/src/subroutines/poly_iop/structs.rs
index b0dae47..86e235f 100644
--- a/src/subroutines/poly_iop/structs.rs
+++ b/src/subroutines/poly_iop/structs.rs
@@ -27,6 +27,20 @@ pub struct IOPProverMessage<F: PrimeField> {
     pub(crate) evaluations: Vec<F>,
 }
 
+/// Raw access to the prover message for the external verification harness.
+#[cfg(zksql_verif)]
+impl<F: PrimeField> IOPProverMessage<F> {
+    pub fn verif_new(evaluations: Vec<F>) -> Self {
+        Self { evaluations }
+    }
+    pub fn verif_evaluations(&self) -> &Vec<F> {
+        &self.evaluations
+    }
+    pub fn verif_evaluations_mut(&mut self) -> &mut Vec<F> {
+        &mut self.evaluations
+    }
+}
+
 /// Prover State of a PolyIOP.
 pub struct IOPProverState<F: PrimeField> {
     /// sampled randomness given by the verifier
-- 
2.43.0


From 96ffecacf0389b983a54340a147eed55d51b11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 04/28] fix: a rejected add_mle_list leaves the virtual
 polynomial unchanged

---
 src/arithmetic/virtual_polynomial.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/virtual_polynomial.rs b/src/arithmetic/virtual_polynomial.rs
index 4bd8dce..828215a 100644
--- a/src/arithmetic/virtual_polynomial.rs
+++ b/src/arithmetic/virtual_polynomial.rs
@@ -147,16 +147,19 @@ impl<F: PrimeField> VirtualPolynomial<F> {
             ));
         }
 
-        self.aux_info.max_degree = max(self.aux_info.max_degree, mle_list.len());
-
-        for mle in mle_list {
+        // check every multiplicand before changing anything
+        for mle in mle_list.iter() {
             if mle.num_vars != self.aux_info.num_variables {
                 return Err(ArithErrors::InvalidParameters(format!(
                     "product has a multiplicand with wrong number of variables {} vs {}",
                     mle.num_vars, self.aux_info.num_variables
                 )));
             }
+        }
 
+        self.aux_info.max_degree = max(self.aux_info.max_degree, mle_list.len());
+
+        for mle in mle_list {
             let mle_ptr: *const DenseMultilinearExtension<F> = Arc::as_ptr(&mle);
             if let Some(index) = self.raw_pointers_lookup_table.get(&mle_ptr) {
                 indexed_product.push(*index)
-- 
2.43.0


From 0fcc482d9fc57d3b5cb6f284cbe76f20a0d1ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 05/28] fix: batch opening of a single polynomial

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 4c4e21d..05f7b13 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -21,6 +21,7 @@ use crate::{
 };
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
+use ark_ff::PrimeField;
 
 use ark_std::{end_timer, log2, start_timer, One, Zero};
 use std::{collections::BTreeMap, iter, marker::PhantomData, ops::Deref, sync::Arc};
@@ -55,6 +56,15 @@ where
     }
 }
 
+/// eq(t, i) for every index i; a single polynomial has no index bits and weight
+/// one.
+fn build_eq_t_list<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -87,7 +97,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = build_eq_t_list(t.as_ref())?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -222,7 +232,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = build_eq_t_list(t.as_ref())?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0


From 6144aea520e93e5b661eaafa2f03ffbb81c3882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 06/28] fix: batch opening challenge depends on the points and
 claimed values

---
 .../pcs/multilinear_kzg/batching.rs           | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 05f7b13..d58ea0c 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -65,6 +65,21 @@ fn build_eq_t_list<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
     Ok(build_eq_x_r_vec(t)?)
 }
 
+/// Absorb the opening points and the claimed values.
+fn append_statement<F: PrimeField>(
+    points: &[Vec<F>],
+    evals: &[F],
+    transcript: &mut IOPTranscript<F>,
+) -> Result<(), PCSError> {
+    for point in points.iter() {
+        transcript.append_serializable_element("batch point".as_ref(), point)?;
+    }
+    for eval in evals.iter() {
+        transcript.append_field_element("batch eval".as_ref(), eval)?;
+    }
+    Ok(())
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -93,6 +108,9 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // the points and values are part of the statement: t must depend on them
+    append_statement(points, evals, transcript)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -224,6 +242,9 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // the points and values are part of the statement: t must depend on them
+    append_statement(points, &proof.f_i_eval_at_point_i, transcript)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From 296df5defdefb13c695dcf8f4d81bac8602e8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 07/28] fix: batch verification rejects a proof that reports a
 different sumcheck point

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index d58ea0c..e2d1538 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -290,6 +290,13 @@ where
             ));
         },
     };
+    // g' was combined at the point the prover reports: it must be the one the
+    // verifier derived
+    if subclaim.point != a2 {
+        return Err(PCSError::InvalidProof(
+            "batch proof reports another sumcheck point".to_string(),
+        ));
+    }
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From 76b0246a0bc0f19b75038dcca80c184533425e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 08/28] fix: sumcheck verification rejects a malformed proof
 instead of panicking

---
 src/subroutines/poly_iop/sum_check/mod.rs      | 12 ++++++++++--
 src/subroutines/poly_iop/sum_check/verifier.rs |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..fa4d150 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -189,10 +189,18 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
     ) -> Result<Self::SumCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "sum check verify");
 
+        // one prover message per variable, or the proof is malformed
+        if proof.proofs.len() != aux_info.num_variables {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "incorrect number of prover messages: {} vs {}",
+                proof.proofs.len(),
+                aux_info.num_variables
+            )));
+        }
+
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
-        for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+        for prover_msg in proof.proofs.iter() {
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..15566f7 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -111,6 +111,14 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             ));
         }
 
+        // a round needs at least P(0) and P(1)
+        if self.max_degree == 0 || self.max_degree == usize::MAX {
+            return Err(PolyIOPErrors::InvalidVerifier(format!(
+                "unsupported round degree: {}",
+                self.max_degree
+            )));
+        }
+
         // the deferred check during the interactive phase:
         // 2. set `expected` to P(r)`
         #[cfg(feature = "parallel")]
-- 
2.43.0


From 71d95ef0b2a925d3ecf4501c5db743f251e01d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 09/28] fix: zerocheck verification rejects a malformed proof
 instead of panicking

---
 src/subroutines/poly_iop/zero_check/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..f669735 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -88,6 +88,18 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
     ) -> Result<Self::ZeroCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "zero check verify");
 
+        // one prover message per variable, each with at least P(0) and P(1), or
+        // the proof is malformed
+        if proof.proofs.len() != fx_aux_info.num_variables
+            || proof.proofs.is_empty()
+            || proof.proofs[0].evaluations.len() < 2
+            || fx_aux_info.max_degree == usize::MAX
+        {
+            return Err(PolyIOPErrors::InvalidProof(
+                "zero check: malformed proof".to_string(),
+            ));
+        }
+
         // check that the sum is zero
         if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
-- 
2.43.0


From 811de33b9f6964f1c10b00512461b9534d221f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 10/28] fix: opening verification rejects a proof of the wrong
 length

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..b964d3b 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -283,6 +283,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if proof.proofs.len() != num_var {
+        return Err(PCSError::InvalidProof(format!(
+            "proof length ({}) does not match point length ({})",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let scalar_size = E::ScalarField::MODULUS_BIT_SIZE as usize;
-- 
2.43.0


From 933f540341e0d31d8e0fa25be58ceb0cbc0772d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 11/28] fix: batch opening and verification reject mismatched
 input lengths

---
 .../pcs/multilinear_kzg/batching.rs           | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index e2d1538..d82e216 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -103,9 +103,24 @@ where
 {
     let open_timer = start_timer!(|| format!("multi open {} points", points.len()));
 
-    // TODO: sanity checks
-    let num_var = polynomials[0].num_vars;
     let k = polynomials.len();
+    if k == 0 || points.len() != k || evals.len() != k {
+        return Err(PCSError::InvalidParameters(format!(
+            "batch opening of {} polynomials at {} points with {} values",
+            k,
+            points.len(),
+            evals.len()
+        )));
+    }
+    let num_var = polynomials[0].num_vars;
+    if polynomials.iter().any(|p| p.num_vars != num_var)
+        || points.iter().any(|p| p.len() != num_var)
+    {
+        return Err(PCSError::InvalidParameters(format!(
+            "polynomials and points must all have {} variables",
+            num_var
+        )));
+    }
     let ell = log2(k) as usize;
 
     // the points and values are part of the statement: t must depend on them
@@ -236,11 +251,23 @@ where
 {
     let open_timer = start_timer!(|| "batch verification");
 
-    // TODO: sanity checks
-
     let k = f_i_commitments.len();
+    if k == 0 || points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidProof(format!(
+            "batch proof for {} commitments at {} points with {} values",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
+    if points.iter().any(|p| p.len() != num_var) {
+        return Err(PCSError::InvalidProof(format!(
+            "batch proof reports a point of {} variables",
+            num_var
+        )));
+    }
 
     // the points and values are part of the statement: t must depend on them
     append_statement(points, &proof.f_i_eval_at_point_i, transcript)?;
-- 
2.43.0


From 9886160162719624df0774c5dc78be5ad944793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 12/28] fix: verify_claims rejects an invalid batch opening

The verifier ignored the boolean result of batch_verify, so any opening
proof was accepted. Checking it also needs smaller polynomials to be
extended at the front, which is how their commitments open; extending
them at the back made honest openings invalid.
---
 src/tracker/prover_tracker.rs   | 2 +-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..16418b6 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // must be the front: a commitment also opens as the polynomial extended at the front
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..76b5c5f 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidProof("verify_claims error: the batch opening proof is invalid".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 4b63d82814fba74fcd230bdc6146ececd6ff9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 13/28] fix: verify_claims rejects a proof of the wrong shape

It indexed an absent batch opening and drew as many challenges as the
proof announced variables, however many.
---
 src/tracker/verifier_tracker.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 76b5c5f..2b53e8c 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -365,7 +365,14 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     }
 
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
+        // the announced shape is not trusted: it sizes the work below
         let nv = self.proof.sc_aux_info.num_variables;
+        if self.proof.sc_proof.proofs.len() != nv {
+            return Err(PolyIOPErrors::InvalidProof("verify_claims error: the sumcheck proof does not have one round per variable".to_string()));
+        }
+        if self.proof.pcs_proof.len() != 1 {
+            return Err(PolyIOPErrors::InvalidProof("verify_claims error: expected exactly one batch opening".to_string()));
+        }
 
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
-- 
2.43.0


From 812296ae1da64c4095115ca74bff5a9e41e169ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 14/28] fix: verify_claims opens every tracked commitment

The list of commitments to open was taken from the proof, so a prover
could leave one out, and naming an untracked one made the verifier
panic.
---
 src/tracker/verifier_tracker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 2b53e8c..cd6a580 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -397,9 +397,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
 
         // verify the batch pcs proof
         let sumcheck_point = iop_verify_subclaim.point.clone();
-        let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
+        let mut comm_ids = self.materialized_comms.keys().cloned().collect::<Vec<TrackerID>>(); // every tracked commitment, whatever the proof lists
         comm_ids.sort(); // sort so the transcript is generated consistently
-        let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
+        let comms = comm_ids.iter().map(|id| self.materialized_comms[id].clone()).collect::<Vec<PCS::Commitment>>();
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-- 
2.43.0


From 49781f24f05058ca5de19ba6ae43c2c8ef60f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 15/28] fix: the aggregation challenges depend on the claimed
 sums

The claimed sums arrive with the proof and were not in the transcript
when the challenges that combine them were drawn, so two of them could
be changed against each other.
---
 src/tracker/prover_tracker.rs   | 5 ++++-
 src/tracker/verifier_tracker.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 16418b6..7ba2dde 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -550,7 +550,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         //      Then convert the zerocheck_agg_poly to a sumcheck
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
 
-        // 1.5) aggregate the sumcheck claims
+        // 1.5) aggregate the sumcheck claims, binding the challenges to the claimed sums
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum)?;
+        }
         let mut sumcheck_poly = self.track_mat_poly(DenseMultilinearExtension::<E::ScalarField>::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)]));
         let mut sc_sum = E::ScalarField::zero();
         for claim in self.sum_check_claims.clone().iter() {
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index cd6a580..5d2e042 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -377,7 +377,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
 
-        // aggregate the sumcheck claims
+        // aggregate the sumcheck claims, binding the challenges to the claimed sums
+        for claim in self.sum_check_claims.clone().iter() {
+            self.append_serializable_element(b"claimed sum", &claim.claimed_sum)?;
+        }
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
-- 
2.43.0


From 438ec6084c37a66b6762fe0f735ad2717892a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 16/28] fix: increase_nv_back on a commitment drops the added
 variables

The closure kept the first added_nv coordinates instead of all but the
last added_nv.
---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 5d2e042..29d394a 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From 98ebc525d8952c07d453341af287f639972eb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 17/28] fix: commitment handles compare equal only when they
 name the same object

---
 src/tracker/verifier_wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_wrapper.rs b/src/tracker/verifier_wrapper.rs
index 5056fce..135f39d 100644
--- a/src/tracker/verifier_wrapper.rs
+++ b/src/tracker/verifier_wrapper.rs
@@ -173,7 +173,7 @@ pub struct TrackedComm<E: Pairing, PCS: PolynomialCommitmentScheme<E>> {
 }
 impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> PartialEq for TrackedComm<E, PCS> {
     fn eq(&self, other: &Self) -> bool {
-        Rc::ptr_eq(&self.tracker, &other.tracker)
+        self.id == other.id && Rc::ptr_eq(&self.tracker, &other.tracker)
     }
 }
 impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedComm<E, PCS> {
-- 
2.43.0


From e5dbe3ceb23327dce45c5b7281d36324d5cc4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 18/28] fix: reading or extending a virtual polynomial leaves
 it as it was

Taking its evaluations, or extending it, replaced a virtual polynomial by
the multilinear extension of its values on the hypercube: another
polynomial, and not the one the verifier's commitment stands for. The
extension itself has the same problem, so it now extends the factors.
---
 src/tracker/prover_tracker.rs | 115 +++++++++++++++++-----------------
 src/tracker/prover_wrapper.rs |   2 +-
 2 files changed, 60 insertions(+), 57 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 7ba2dde..55c99a8 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -53,6 +53,7 @@ pub struct ProverTracker<E: Pairing, PCS: PolynomialCommitmentScheme<E>>{
     pub pcs_param: PCS::ProverParam,
     pub transcript: IOPTranscript<E::ScalarField>,
     pub id_counter: usize,
+    hidden_id_counter: usize,
     pub materialized_polys: HashMap<TrackerID, Arc<DenseMultilinearExtension<E::ScalarField>>>, // underlying materialized polynomials, keyed by label
     pub virtual_polys: HashMap<TrackerID, Vec<(E::ScalarField, Vec<TrackerID>)>>, // virtual polynomials, keyed by label. Invariant: a virt poly contains only material TrackerIDs
     pub materialized_comms: HashMap<TrackerID, PCS::Commitment>,
@@ -66,6 +67,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
             pcs_param: pcs_param,
             transcript: IOPTranscript::<E::ScalarField>::new(b"Initializing Tracnscript"),
             id_counter: 0,
+            hidden_id_counter: 0,
             virtual_polys: HashMap::new(),
             materialized_polys: HashMap::new(),
             materialized_comms: HashMap::new(),
@@ -88,6 +90,13 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     pub fn get_next_id(&mut self) -> TrackerID {
         TrackerID(self.id_counter)
     }
+
+    // ids for polynomials without a counterpart in the verifier: taken from the
+    // far end so that the ids both trackers hand out stay in step
+    fn gen_hidden_id(&mut self) -> TrackerID {
+        self.hidden_id_counter += 1;
+        TrackerID(usize::MAX - self.hidden_id_counter)
+    }
     
     pub fn track_mat_poly(
         &mut self,
@@ -343,65 +352,47 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_front(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
-        let base_nv = base_mle.num_vars();
-        let res_mle = dmle_increase_nv_front(base_mle, base_nv + added_nv);
-        let res_id = self.track_mat_arc_poly(res_mle);
-        res_id
+        self.increase_nv(poly_id, added_nv, dmle_increase_nv_front)
     }
 
     pub fn increase_nv_back(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
-        let base_nv = base_mle.num_vars();
-        let res_mle = dmle_increase_nv_back(base_mle, base_nv + added_nv);
-        let res_id = self.track_mat_arc_poly(res_mle);
-        res_id
+        self.increase_nv(poly_id, added_nv, dmle_increase_nv_back)
     }
 
-    fn materialize_poly(&mut self, id: TrackerID) {
-        // look up the virtual polynomial
-        let mat_poly = self.materialized_polys.get(&id);
-        if mat_poly.is_some() {
-            return // already materialized
-        }
-        let virt_poly = self.virtual_polys.get(&id);
-        if virt_poly.is_none() {
-            panic!("Unknown poly id: {:?}", id);
+    fn increase_nv(
+        &mut self,
+        poly_id: TrackerID,
+        added_nv: usize,
+        extend: fn(&Arc<DenseMultilinearExtension<E::ScalarField>>, usize) -> Arc<DenseMultilinearExtension<E::ScalarField>>,
+    ) -> TrackerID {
+        let new_nv = self.get_poly_nv(poly_id) + added_nv;
+        if let Some(base_mle) = self.get_mat_poly(poly_id) {
+            let res_mle = extend(base_mle, new_nv);
+            return self.track_mat_arc_poly(res_mle);
         }
-        let virt_poly = virt_poly.unwrap().clone(); // Invariant: contains only material PolyIDs
-
-        // figure out the number of variables, assume they all have this nv
-        let first_id = virt_poly[0].1[0].clone();
-        let nv: usize = self.get_mat_poly(first_id).unwrap().num_vars();
 
-        // calculate the evaluation of each product list
-        let prod_evaluations: Vec<Vec<E::ScalarField>> = virt_poly.iter().map(|(coeff, prod)| {
-            let mut res = vec![coeff.clone(); 2_usize.pow(nv as u32)];
-            prod.iter().for_each(|poly| {
-                let poly_evals = self.evaluations(*poly);
-                res = res.iter()
-                    .zip(poly_evals.iter())
-                    .map(|(a, b)| *a * b)
-                    .collect()
-            });
-            res
-        }).collect();
-
-        // sum the evaluations of each product list
-        let mut evals = vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)];
-        prod_evaluations.iter().for_each(|prod_eval| {
-            evals = evals.iter()
-                .zip(prod_eval.iter())
-                .map(|(a, b)| *a + b)
-                .collect()
-        });
-
-        // cache the result by updating the materialized poly map
-        let mle = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals));
-        self.materialized_polys.insert(id.clone(), mle);
-        self.virtual_polys.remove(&id);
+        // a virtual polynomial keeps its products, only their factors are extended
+        let mut extended_ids: HashMap<TrackerID, TrackerID> = HashMap::new();
+        let base_virt = self.virtual_polys[&poly_id].clone();
+        let mut new_virt_rep = Vec::with_capacity(base_virt.len()); // Invariant: contains only material TrackerIDs
+        for (coeff, prod) in base_virt {
+            let mut new_prod = Vec::with_capacity(prod.len());
+            for id in prod {
+                let extended_id = match extended_ids.get(&id) {
+                    Some(extended_id) => *extended_id,
+                    None => {
+                        let extended_mle = extend(&self.materialized_polys[&id], new_nv);
+                        let extended_id = self.gen_hidden_id();
+                        self.materialized_polys.insert(extended_id, extended_mle);
+                        extended_ids.insert(id, extended_id);
+                        extended_id
+                    },
+                };
+                new_prod.push(extended_id);
+            }
+            new_virt_rep.push((coeff, new_prod));
+        }
+        self.track_virt_poly(new_virt_rep)
     }
 
     pub fn evaluate(&self, id: TrackerID, pt: &[E::ScalarField]) -> Option<E::ScalarField>{
@@ -437,10 +428,22 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         Some(eval)
     }
 
-    pub fn evaluations(&mut self, id: TrackerID) -> &Vec<E::ScalarField> {
-        self.materialize_poly(id);
-        let mat_poly = self.materialized_polys.get(&id).unwrap();
-        return &mat_poly.evaluations;
+    pub fn evaluations(&self, id: TrackerID) -> Vec<E::ScalarField> {
+        if let Some(mat_poly) = self.get_mat_poly(id) {
+            return mat_poly.evaluations.clone();
+        }
+
+        // sum the evaluations of each product list
+        let mut evals = vec![E::ScalarField::zero(); 1 << self.get_poly_nv(id)];
+        for (coeff, prod) in self.virtual_polys[&id].iter() { // Invariant: contains only material PolyIDs
+            let mut prod_evals = vec![*coeff; evals.len()];
+            for factor_id in prod.iter() {
+                let factor = &self.materialized_polys[factor_id];
+                prod_evals.iter_mut().zip(factor.evaluations.iter()).for_each(|(a, b)| *a *= b);
+            }
+            evals.iter_mut().zip(prod_evals.iter()).for_each(|(a, b)| *a += b);
+        }
+        evals
     }
 
     pub fn get_and_append_challenge(&mut self, label: &'static [u8]) -> Result<E::ScalarField, TranscriptError> {
diff --git a/src/tracker/prover_wrapper.rs b/src/tracker/prover_wrapper.rs
index 0c2e4a6..335c6a8 100644
--- a/src/tracker/prover_wrapper.rs
+++ b/src/tracker/prover_wrapper.rs
@@ -220,7 +220,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedPoly<E, PCS> {
     pub fn evaluations(&self) -> Vec<E::ScalarField> {
         // note: this has to actually clone the evaluations, which can be expensive
         let tracker_ref: &RefCell<ProverTracker<E, PCS>> = self.tracker.borrow();
-        tracker_ref.borrow_mut().evaluations(self.id.clone()).clone() 
+        tracker_ref.borrow().evaluations(self.id.clone())
     }
 
     pub fn to_arithmatic_virtual_poly(&self) -> VirtualPolynomial<E::ScalarField> {
-- 
2.43.0


From 93ce2c23b91cde6e8e0a200245e51e21245014e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 19/28] fix: a proof that lacks a commitment or a claimed sum
 is rejected

The verifier panicked on it.
---
 src/tracker/verifier_tracker.rs | 12 +++++++++++
 src/tracker/verifier_wrapper.rs | 36 ++++++++++++++++-----------------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 29d394a..8d062de 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -44,6 +44,7 @@ pub struct VerifierTracker<E: Pairing, PCS: PolynomialCommitmentScheme<E>> {
     pub sum_check_claims: Vec<TrackerSumcheckClaim<E::ScalarField>>,
     pub zero_check_claims: Vec<TrackerZerocheckClaim<E::ScalarField>>,
     pub proof: CompiledZKSQLProof<E, PCS>,
+    proof_incomplete: bool, // something the protocol asked for was not in the proof
 }
 
 impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
@@ -58,6 +59,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             sum_check_claims: Vec::new(),
             zero_check_claims: Vec::new(),
             proof: CompiledZKSQLProof::default(),
+            proof_incomplete: false,
         }
     }
 
@@ -323,6 +325,12 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         self.zero_check_claims.push(TrackerZerocheckClaim::new(poly_id));
     }
 
+    /// Records that the proof lacks something the protocol needs. The verifier can go on
+    /// with a placeholder, `verify_claims` will reject the proof.
+    pub fn set_proof_incomplete(&mut self) {
+        self.proof_incomplete = true;
+    }
+
     pub fn get_prover_comm(&self, id: TrackerID) -> Option<&PCS::Commitment> { 
         self.proof.comms.get(&id) 
     }
@@ -365,6 +373,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     }
 
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
+        if self.proof_incomplete {
+            return Err(PolyIOPErrors::InvalidProof("verify_claims error: the proof lacks a commitment or a claimed sum".to_string()));
+        }
+
         // the announced shape is not trusted: it sizes the work below
         let nv = self.proof.sc_aux_info.num_variables;
         if self.proof.sc_proof.proofs.len() != nv {
diff --git a/src/tracker/verifier_wrapper.rs b/src/tracker/verifier_wrapper.rs
index 135f39d..4e43192 100644
--- a/src/tracker/verifier_wrapper.rs
+++ b/src/tracker/verifier_wrapper.rs
@@ -6,6 +6,7 @@ use std::{
 
 use ark_ec::pairing::Pairing;
 use ark_serialize::CanonicalSerialize;
+use ark_std::Zero;
 
 use crate::tracker::{
     errors::PolyIOPErrors,
@@ -104,9 +105,13 @@ impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTrackerRef<E, PCS>
 
     pub fn get_prover_claimed_sum(&self, id: TrackerID) -> E::ScalarField {
         let tracker_ref_cell: &RefCell<VerifierTracker<E, PCS>> = self.tracker_rc.borrow();
-        let tracker = tracker_ref_cell.borrow();
-        let sum = tracker.get_prover_claimed_sum(id).unwrap().clone();
-        return sum;
+        let mut tracker = tracker_ref_cell.borrow_mut();
+        let sum = tracker.get_prover_claimed_sum(id).cloned();
+        sum.unwrap_or_else(|| {
+            // a malformed proof: go on with a placeholder, verify_claims will reject it
+            tracker.set_proof_incomplete();
+            E::ScalarField::zero()
+        })
     }
 
     pub fn transfer_proof_poly_evals(&mut self) {
@@ -116,24 +121,17 @@ impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTrackerRef<E, PCS>
     }
 
     pub fn transfer_prover_comm(&mut self,  id: TrackerID) -> TrackedComm<E, PCS> {
-        let new_id: TrackerID;
-        let comm: PCS::Commitment;
         let tracker_ref_cell: &RefCell<VerifierTracker<E, PCS>> = self.tracker_rc.borrow();
-        {
-            // Scope the immutable borrow
-            let tracker = tracker_ref_cell.borrow();
-            let comm_opt: Option<&PCS::Commitment> = tracker.proof.comms.get(&id);
-            match comm_opt {
-                Some(value) => {
-                    comm = value.clone();
-                },
-                None => {
-                    panic!("VerifierTracker Error: attempted to transfer prover comm, but id not found: {}", id);
-                }
-            }
-        } 
         let mut tracker = tracker_ref_cell.borrow_mut();
-        new_id = tracker.track_mat_comm(comm).unwrap();
+        let comm = tracker.get_prover_comm(id).cloned();
+        let new_id = match comm {
+            Some(comm) => tracker.track_mat_comm(comm).unwrap(),
+            None => {
+                // a malformed proof: go on with a placeholder, verify_claims will reject it
+                tracker.set_proof_incomplete();
+                tracker.track_virtual_comm(Box::new(|_: &[E::ScalarField]| Ok(E::ScalarField::zero())))
+            },
+        };
 
         #[cfg(debug_assertions)] {
             assert_eq!(id, new_id, "VerifierTracker Error: attempted to transfer prover comm, but ids don't match: {}, {}", id, new_id);
-- 
2.43.0


From 3cbf2b71f31a0063c41ed5850a3679fba328347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 20/28] verif hook: substitution of committed polynomials under
 cfg(zksql_verif)

---
 src/tracker/mod.rs            | 21 +++++++++++++++++++++
 src/tracker/prover_tracker.rs |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 5184d73..3c22dcf 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -19,4 +19,25 @@ pub mod verif_hooks {
     pub use super::prover_tracker::ProverTracker;
     pub use super::tracker_structs::{CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim};
     pub use super::verifier_tracker::VerifierTracker;
+
+    /// Substitution of polynomials right before they are committed and tracked, so
+    /// that the harness can run the prover with dishonest supporting data. The
+    /// callback gets the number of variables and the `Vec` of evaluations.
+    pub type Substitution = Box<dyn FnMut(usize, &mut dyn std::any::Any)>;
+    thread_local! {
+        static SUBSTITUTION: std::cell::RefCell<Option<Substitution>> = std::cell::RefCell::new(None);
+    }
+    pub fn set_substitution(f: Option<Substitution>) -> Option<Substitution> {
+        SUBSTITUTION.with(|s| std::mem::replace(&mut *s.borrow_mut(), f))
+    }
+    pub(super) fn substitute<F: ark_ff::Field>(
+        mut polynomial: ark_poly::DenseMultilinearExtension<F>,
+    ) -> ark_poly::DenseMultilinearExtension<F> {
+        SUBSTITUTION.with(|s| {
+            if let Some(f) = s.borrow_mut().as_mut() {
+                f(polynomial.num_vars, &mut polynomial.evaluations);
+            }
+        });
+        polynomial
+    }
 }
diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 55c99a8..634fe4c 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -124,6 +124,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         &mut self,
         polynomial: DenseMultilinearExtension<E::ScalarField>,
     ) -> Result<TrackerID, PCSError> {
+        #[cfg(zksql_verif)]
+        let polynomial = super::verif_hooks::substitute(polynomial);
+
         // commit to the p[olynomial
         let commitment = PCS::commit(self.pcs_param.clone(), &polynomial)?;
 
-- 
2.43.0


From 730ae4e49b357da40da0a3ccfc582c0e1ef868f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 21/28] fix: compiling a proof about one-row tables panicked

All polynomials without variables left the aggregate without variables, for
which neither the zerocheck's eq polynomial nor a sumcheck exists. The
aggregate now has at least one variable.
---
 src/tracker/prover_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 634fe4c..fa0b887 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     // Used as a preprocessing step before batching polynomials, 
     fn equalize_materialized_poly_nv(&mut self) -> usize {
         // calculate the max nv
-        let nv: usize = self.materialized_polys.iter().map(|(_, p)| p.num_vars()).max().ok_or(1).unwrap();
+        let nv: usize = self.materialized_polys.iter().map(|(_, p)| p.num_vars()).max().unwrap_or(1).max(1); // the aggregate has at least one variable
 
         // increase the nv of all the polynomials
         for (_, poly) in self.materialized_polys.iter_mut() {
-- 
2.43.0


From ffb2c0bddca99e83eff62bc35a5a32fa69092326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 22/28] fix: rows are aggregated as a random linear combination
 of their columns

The columns were multiplied with each other, so a permutation of a row's
values (or a single zero) aggregated to the same value: index transforms and
joins accepted rows that are not in the table.
---
 src/zksql_poly_iop/index_transform/utils.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..ac8a192 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table.col_vals.is_empty() || table.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_prover_agg Error: need one coefficient per column and at least one column".to_string()));
+    }
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +38,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table_comm.col_vals.is_empty() || table_comm.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_verifier_agg Error: need one coefficient per column and at least one column".to_string()));
+    }
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From c6a1bced663e3e9993a2f28075aeec49019e687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 23/28] fix: two sets that share a value were shown disjoint

The selector of the sum that the prover commits to was not shown boolean, so a
shared value could be listed once with selector two.
---
 src/zksql_poly_iop/set_disjoint/set_disjoint.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
index c86edc4..c3fd9f9 100644
--- a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
+++ b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
@@ -9,6 +9,7 @@ use crate::{
     zksql_poly_iop::{
         bag_sum::bag_sum::BagSumIOP,
         bag_sort::bag_sort::BagStrictSortIOP,
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 use ark_std::Zero;
@@ -56,6 +57,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_poly = prover_tracker.track_and_commit_poly(sum_sel_mle)?;
         let sum_bag = &Bag::new(sum_poly, sum_sel_poly);
 
+        // Prove the selector of the bag_sum is boolean, so a value that is in both bags must be in two rows
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &sum_bag.selector)?;
+
         // Prove the bag_sum was created correctly
         BagSumIOP::<E, PCS>::prove(
             prover_tracker,
@@ -89,6 +93,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_comm = verifier_tracker.transfer_prover_comm(sum_sel_id);
         let sum_bag = &BagComm::new(sum_comm, sum_sel_comm, sum_nv);
 
+        // verify the selector of the bag_sum is boolean, so a value that is in both bags must be in two rows
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &sum_bag.selector)?;
+
         // verify the bag_sum was created correctly
         BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;
 
-- 
2.43.0


From dcfafa16ae6ca7069edc74568a077bead078cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 24/28] fix: the join's debug check counts only activated rows
 as duplicates

---
 .../final_join_one_to_many/final_join_one_to_many.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..899a0dc 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -63,9 +63,14 @@ where PCS: PolynomialCommitmentScheme<E> {
         // sanity check that the table_a join_col does not have duplicates, since the IOP is not sound otherwise
         #[cfg(debug_assertions)] 
         {
+            use ark_std::Zero;
             let table_a_join_col_evals = table_a.col_vals[a_join_col_index].evaluations();
+            let table_a_sel_evals = table_a.selector.evaluations();
             let mut counts = HashMap::<E::ScalarField, usize>::new();
             for i in 0..table_a_join_col_evals.len() {
+                if table_a_sel_evals[i].is_zero() { // deactivated rows are not in the table
+                    continue;
+                }
                 let val = table_a_join_col_evals[i];
                 let count = counts.entry(val).or_insert(0);
                 *count += 1;
-- 
2.43.0


From 55e1ac4e2ae5ebdd1578e138896d8f5c09b77916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 25/28] fix: the group-by result lacked the columns of its sums

A group-by without a grouping column panicked; it is refused now.
---
 src/zksql_poly_iop/group_by/group_by.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..442d9d0 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -11,7 +11,7 @@ use crate::subroutines::pcs::PolynomialCommitmentScheme;
 use crate::{
     tracker::prelude::*,
     zksql_poly_iop::{
-        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice}
+        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice},
     },
 };
 
@@ -104,7 +104,7 @@ where PCS: PolynomialCommitmentScheme<E> {
         range_bag: &Bag<E, PCS>,
     ) -> Result<Table<E, PCS>, PolyIOPErrors> { 
         // 0. input validation for group_by_instructions
-        if group_by_instructions.grouping_cols.len() > 1 {
+        if group_by_instructions.grouping_cols.len() != 1 || group_by_instructions.support_cols.len() != 1 {
             return Err(PolyIOPErrors::InvalidParameters(format!("GroupByIOP Error: only 1 grouping column is supported for now")));
         }
         let grouping_col_idx = group_by_instructions.grouping_cols[0];
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -191,7 +192,7 @@ where PCS: PolynomialCommitmentScheme<E> {
         let res_table_nv = input_table.num_vars();
 
         // 0. input validation for group_by_instructions
-        if group_by_instructions.grouping_cols.len() > 1 {
+        if group_by_instructions.grouping_cols.len() != 1 || group_by_instructions.support_cols.len() != 1 {
             return Err(PolyIOPErrors::InvalidParameters(format!("GroupByIOP Error: only 1 grouping column is supported for now")));
         }
         let grouping_col_idx = group_by_instructions.grouping_cols[0];
@@ -207,7 +208,6 @@ where PCS: PolynomialCommitmentScheme<E> {
         let supp_sel_comm = group_by_instructions.support_sel.clone();
         let support_multiplicity_comm = group_by_instructions.support_multiplicity.clone();
         let pre_grouping_col_bag = BagComm::new(input_table.col_vals[grouping_col_idx].clone(), input_table.selector.clone(), input_table.num_vars());
-        
 
         // 1. verify the grouping bag is a the support of the pre-grouping bag
         //    as part of this proof, it shows that support_multiplicity_poly is the relevent multiplicity vector for proving 
@@ -242,6 +242,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From cde7f0c3f451e43304883800ba95c0eea6641f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 26/28] fix: group-by counts and sums could be scaled through a
 selector that is not boolean

---
 src/zksql_poly_iop/group_by/group_by.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index 442d9d0..e0456aa 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -12,6 +12,7 @@ use crate::{
     tracker::prelude::*,
     zksql_poly_iop::{
         bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice},
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 
@@ -121,6 +122,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let support_multiplicity_poly = group_by_instructions.support_multiplicity.clone();
         let pre_grouping_col_bag = Bag::new(input_table.col_vals[grouping_col_idx].clone(), input_table.selector.clone());
 
+        // the selector of the result is boolean, otherwise the counts and sums could be scaled
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &supp_sel_poly)?;
+
         // 1. prove the grouping bag is a the support of the pre-grouping bag
         //    as part of this proof, it shows that support_multiplicity_poly is the relevent multiplicity vector for proving 
         //    the grouping bag is a subset of the support of the pre-grouping bag
@@ -209,6 +213,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let support_multiplicity_comm = group_by_instructions.support_multiplicity.clone();
         let pre_grouping_col_bag = BagComm::new(input_table.col_vals[grouping_col_idx].clone(), input_table.selector.clone(), input_table.num_vars());
 
+        // the selector of the result is boolean, otherwise the counts and sums could be scaled
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &supp_sel_comm)?;
+
         // 1. verify the grouping bag is a the support of the pre-grouping bag
         //    as part of this proof, it shows that support_multiplicity_poly is the relevent multiplicity vector for proving 
         //    the grouping bag is a subset of the support of the pre-grouping bag
-- 
2.43.0


From ce4c49cac3fadb8ebe00033e17568129e9b3cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 27/28] fix: splitting bags that are not sorted lost and
 invented rows

The values were compared and copied by their position in the bag instead of
their position among its sorted activated values.
---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..9988754 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,34 +62,26 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
-    }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
-    }
+    l_evals.extend_from_slice(&sorted_a_evals[a_counter..]);
+    r_evals.extend_from_slice(&sorted_b_evals[b_counter..]);
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0


From ba35afc4e42d6c69ccfd743374b18462e3e6e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 28/28] fix: splitting bags with multiplicities ran out of
 bounds and counted wrong values

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 81 ++++++--------------
 1 file changed, 25 insertions(+), 56 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index 9988754..e4fc9b0 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -7,7 +7,7 @@ use crate::tracker::prelude::PolyIOPErrors;
 use ark_std::Zero;
 use ark_std::One;
 use ark_poly::DenseMultilinearExtension;
-use std::cmp::max;
+use std::cmp::{max, min};
 use crate::tracker::prelude::TrackedPoly;
 
 pub fn bag_lmr_split<E, PCS>(
@@ -189,66 +189,35 @@ where
     // and create the intermediate bags
     let mut a_index = 0;
     let mut b_index = 0;
-    while a_index < sorted_a_evals.len() && b_index < sorted_b_evals.len() {
-        if a_evals[a_index] < b_evals[b_index] {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
-        } else if a_evals[a_index] > b_evals[b_index] {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
+    while a_index < sorted_a_evals.len() || b_index < sorted_b_evals.len() {
+        // the smallest value left in either bag, and how often each bag has it
+        let val = match (sorted_a_evals.get(a_index), sorted_b_evals.get(b_index)) {
+            (Some(a_val), Some(b_val)) => *min(a_val, b_val),
+            (Some(val), None) | (None, Some(val)) => *val,
+            (None, None) => break,
+        };
+        let mut a_mul_counter: u64 = 0;
+        let mut b_mul_counter: u64 = 0;
+        while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
+            a_mul_counter += 1;
+            a_index += 1;
+        }
+        while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
+            b_mul_counter += 1;
+            b_index += 1;
+        }
+        if b_mul_counter == 0 {
+            l_evals.push(val);
+            l_mul_evals.push(E::ScalarField::from(a_mul_counter));
+        } else if a_mul_counter == 0 {
+            r_evals.push(val);
+            r_mul_evals.push(E::ScalarField::from(b_mul_counter));
         } else {
-            let match_eval = a_evals[a_index];
-            let mut a_mul_counter: u64 = 0;
-            let mut b_mul_counter: u64 = 0;
-            while a_index < sorted_a_evals.len() && a_evals[a_index] == match_eval {
-                a_mul_counter += 1;
-                a_index += 1;
-            }
-            while b_index < sorted_b_evals.len() && b_evals[b_index] == match_eval {
-                b_mul_counter += 1;
-                b_index += 1;
-            }
-            m_evals.push(match_eval);
+            m_evals.push(val);
             m_amul_evals.push(E::ScalarField::from(a_mul_counter));
             m_bmul_evals.push(E::ScalarField::from(b_mul_counter));
         }
     }
-    for i in a_index..a_len {
-        if !a_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
-        }
-    }
-    for i in b_index..b_len {
-        if !b_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
-        }
-    }
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0

