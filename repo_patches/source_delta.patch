From 688b29a3a11b2031c5b53c07d1a80d6a168b1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:18 +0000
Subject: [PATCH 01/22] verif: hooks for the verification harness, behind
 cfg(zok_verif)

---
 src/lib.rs                       |  2 ++
 src/lookup/permute.rs            | 10 +++++++++
 src/lookup/subset_equality.rs    | 10 +++++++++
 src/permutation/grand_product.rs |  7 ++++++
 src/permutation/mod.rs           |  5 +++++
 src/verif_hooks.rs               | 37 ++++++++++++++++++++++++++++++++
 6 files changed, 71 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index af37987..8aa77be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,6 +32,8 @@ mod mock_prover;
 pub mod multiproof;
 pub mod permutation;
 mod turbo_plonk;
+#[cfg(zok_verif)]
+pub mod verif_hooks;
 
 mod tests;
 
diff --git a/src/lookup/permute.rs b/src/lookup/permute.rs
index f7518f7..a3a1b59 100644
--- a/src/lookup/permute.rs
+++ b/src/lookup/permute.rs
@@ -5,6 +5,16 @@ use ark_ff::Field;
 pub fn permute_for_lookup<F: Field>(a: &[F], s: &[F]) -> (Vec<F>, Vec<F>) {
     assert_eq!(a.len(), s.len());
 
+    #[cfg(zok_verif)]
+    {
+        let mut forced: (Vec<F>, Vec<F>, bool) =
+            (a.to_vec(), s.to_vec(), false);
+        crate::verif_hooks::intercept("lookup_columns", 0, &mut forced);
+        if forced.2 {
+            return (forced.0, forced.1);
+        }
+    }
+
     let mut a_permuted = a[..].to_vec();
     a_permuted.sort();
 
diff --git a/src/lookup/subset_equality.rs b/src/lookup/subset_equality.rs
index f7eff44..edf6dcd 100644
--- a/src/lookup/subset_equality.rs
+++ b/src/lookup/subset_equality.rs
@@ -50,6 +50,13 @@ impl<F: PrimeField> SubsetEqualityArgument<F> {
             z_evals.push(z_prev);
         }
 
+        #[cfg(zok_verif)]
+        crate::verif_hooks::intercept(
+            "lookup_z_usable_rows",
+            lookup_index,
+            &mut z_evals,
+        );
+
         assert_eq!(z_evals[u], F::one());
         // allowed rows is: u = domain_size - t - 1
         // t = domain_size - 1 - u
@@ -59,6 +66,9 @@ impl<F: PrimeField> SubsetEqualityArgument<F> {
             z_evals.push(F::rand(zk_rng));
         }
 
+        #[cfg(zok_verif)]
+        crate::verif_hooks::intercept("lookup_z", lookup_index, &mut z_evals);
+
         let poly =
             DensePolynomial::from_coefficients_slice(&domain.ifft(&z_evals));
 
diff --git a/src/permutation/grand_product.rs b/src/permutation/grand_product.rs
index 1cdfc34..e1df3de 100644
--- a/src/permutation/grand_product.rs
+++ b/src/permutation/grand_product.rs
@@ -80,6 +80,13 @@ impl<F: PrimeField> GrandProductArgument<F> {
 
         assert_eq!(z_evals.len(), domain.size());
 
+        #[cfg(zok_verif)]
+        crate::verif_hooks::intercept(
+            "permutation_z",
+            chunk_index,
+            &mut z_evals,
+        );
+
         let z_poly =
             DensePolynomial::from_coefficients_slice(&domain.ifft(&z_evals));
         let evals_at_coset_of_extended_domain =
diff --git a/src/permutation/mod.rs b/src/permutation/mod.rs
index ea9c6d3..b8978f5 100644
--- a/src/permutation/mod.rs
+++ b/src/permutation/mod.rs
@@ -137,6 +137,11 @@ impl<F: PrimeField> PermutationArgument<F> {
             agg_polys.push(agg_i);
         }
 
+        #[cfg(zok_verif)]
+        if crate::verif_hooks::adversarial() {
+            return agg_polys;
+        }
+
         // sanity
         assert_eq!(agg_polys.last().unwrap().evals[self.usable_rows], F::one());
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..35c876d
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,37 @@
+//! Hooks for the verification harness. Compiled only with `--cfg zok_verif`.
+//!
+//! Two things live here: re-exports of modules that are private to the crate, and a
+//! thread-local interceptor that lets the harness play a dishonest prover by replacing
+//! columns that the honest prover would compute.
+
+use std::any::Any;
+use std::cell::RefCell;
+
+pub use crate::mock_prover::*;
+pub use crate::turbo_plonk::*;
+
+/// Called with the name of the site, the index of the column(s) and the value to replace.
+pub type Interceptor = Box<dyn FnMut(&'static str, usize, &mut dyn Any)>;
+
+thread_local! {
+    static INTERCEPTOR: RefCell<Option<Interceptor>> = RefCell::new(None);
+}
+
+/// Installs (or removes) the interceptor of the current thread.
+pub fn set_interceptor(interceptor: Option<Interceptor>) {
+    INTERCEPTOR.with(|i| *i.borrow_mut() = interceptor);
+}
+
+/// True while an interceptor is installed on the current thread.
+pub fn adversarial() -> bool {
+    INTERCEPTOR.with(|i| i.borrow().is_some())
+}
+
+/// Gives the interceptor, if there is one, the chance to replace `value`.
+pub fn intercept(site: &'static str, index: usize, value: &mut dyn Any) {
+    INTERCEPTOR.with(|i| {
+        if let Some(interceptor) = i.borrow_mut().as_mut() {
+            interceptor(site, index, value)
+        }
+    })
+}
-- 
2.43.0


From b96a02d87514d664161b76c0866f0dfb8c524795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 02/22] fix: treat row offsets as cyclic in every view of a
 column

A backward offset that is a multiple of the domain size indexed past the
end of the column, offsets of at least the domain size indexed past the
end of the root list, and a zero offset built with the minus sign was a
different rotation than the current row.
---
 src/oracles/rotation.rs | 16 ++++++++++++----
 src/oracles/traits.rs   | 25 +++++++------------------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/oracles/rotation.rs b/src/oracles/rotation.rs
index 4719c56..7ac7cd0 100644
--- a/src/oracles/rotation.rs
+++ b/src/oracles/rotation.rs
@@ -16,6 +16,10 @@ pub struct Rotation {
 
 impl Rotation {
     pub fn new(degree: usize, sign: Sign) -> Self {
+        // zero rotation is the same in both directions
+        if degree == 0 {
+            return Self::curr();
+        }
         Self { degree, sign }
     }
 
@@ -50,9 +54,11 @@ impl Rotation {
             return evaluation_point;
         }
 
+        // rotations are cyclic
+        let degree = self.degree % omegas.len();
         let omega = match self.sign {
-            Sign::Plus => omegas[self.degree],
-            Sign::Minus => omegas[self.degree].inverse().unwrap(),
+            Sign::Plus => omegas[degree],
+            Sign::Minus => omegas[degree].inverse().unwrap(),
         };
 
         evaluation_point * omega
@@ -67,9 +73,11 @@ impl Rotation {
         if self.degree == 0 {
             (opening_challenge_label.into(), opening_challenge)
         } else {
+            // rotations are cyclic
+            let degree = self.degree % omegas.len();
             let (omega, point_label) = match self.sign {
                 Sign::Plus => {
-                    let omega = omegas[self.degree];
+                    let omega = omegas[degree];
                     let point_label = format!(
                         "omega_{}_{}",
                         self.degree, opening_challenge_label
@@ -77,7 +85,7 @@ impl Rotation {
                     (omega, point_label)
                 }
                 Sign::Minus => {
-                    let omega = omegas[self.degree].inverse().unwrap();
+                    let omega = omegas[degree].inverse().unwrap();
                     let point_label = format!(
                         "omega_-{}_{}",
                         self.degree, opening_challenge_label
diff --git a/src/oracles/traits.rs b/src/oracles/traits.rs
index 74c6943..ebbeea2 100644
--- a/src/oracles/traits.rs
+++ b/src/oracles/traits.rs
@@ -63,16 +63,11 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
             }
             // TODO: test negative rotations
             Sign::Minus => {
-                let index = omega_index as i64
-                    - (rotation.degree * scaling_ratio) as i64;
-                if index >= 0 {
-                    extended_coset_evals[index as usize]
-                } else {
-                    let move_from_end = (rotation.degree * scaling_ratio
-                        - omega_index)
-                        % extended_domain_size;
-                    extended_coset_evals[extended_domain_size - move_from_end]
-                }
+                let shift =
+                    (rotation.degree * scaling_ratio) % extended_domain_size;
+                extended_coset_evals[(omega_index + extended_domain_size
+                    - shift)
+                    % extended_domain_size]
             }
         };
         Ok(eval)
@@ -93,14 +88,8 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
             Sign::Plus => evals[(omega_index + rotation.degree) % domain_size],
             // TODO: test negative rotations
             Sign::Minus => {
-                let index = omega_index as i64 - (rotation.degree) as i64;
-                if index >= 0 {
-                    evals[index as usize]
-                } else {
-                    let move_from_end =
-                        (rotation.degree - omega_index) % domain_size;
-                    evals[domain_size - move_from_end]
-                }
+                let shift = rotation.degree % domain_size;
+                evals[(omega_index + domain_size - shift) % domain_size]
             }
         }
     }
-- 
2.43.0


From 6d507d488dd0cba136162658cddbd06d4694bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 03/22] fix: verifying an opening with repeated offsets returns
 an error

The prover already returns RepeatedRotation for them; the verifier
panicked.
---
 src/multiproof/piop/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..c66b9d0 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -202,9 +203,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                         let prev =
                             q_i_evals_set.insert(evaluation_point, evaluation);
                         if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
-                            )
+                            return Err(
+                                PiopError::RepeatedRotation(*rotation).into()
+                            );
                         }
                     }
 
-- 
2.43.0


From e0affa435061327108e4dccb81c15b87495a7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:08 +0000
Subject: [PATCH 04/22] fix: batched opening with missing or surplus q
 evaluations is rejected

The verifier zipped the opening sets with the q evaluations of the proof,
so a proof with fewer of them left out the remaining sets entirely (an
empty list accepted any claimed evaluation).
---
 src/multiproof/error.rs    | 3 +++
 src/multiproof/piop/mod.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..b3646bf 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -9,6 +9,9 @@ pub enum Error<E> {
 
     /// Pairing check does not hold.
     OpeningCheckFailed,
+
+    /// Proof does not contain exactly one q evaluation for each opening set
+    WrongNumberOfQEvals,
 }
 
 impl<E> Error<E> {
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index c66b9d0..1cfa04b 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -166,6 +166,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // There must be exactly one q evaluation for each opening set
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfQEvals);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From d57538992ea239ca9eb77a44d83d0338d79ad23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:08 +0000
Subject: [PATCH 05/22] fix: gates of lower degree than the vanishing
 polynomial give QuotientTooSmall

The degree subtraction underflowed and key preparation panicked.
---
 src/indexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..f4e56a1 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        // numerator of lower degree than the vanishing polynomial
+        // leaves nothing to commit to
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
-- 
2.43.0


From 9587bde20d580f7af71b6c313752400f4176bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 06/22] fix: extended domain has room for every coefficient of
 the quotient

A quotient of degree d has d + 1 coefficients, so when d is a power of two
the domain was one too small and satisfied systems were rejected.
---
 src/indexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index f4e56a1..afd6806 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -179,8 +179,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         )?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
+        // polynomial of degree d is determined by d + 1 evaluations
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From 182679124c41bd1e58994df9210b1108e500eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:27 +0000
Subject: [PATCH 07/22] fix: copied columns are opened at the current row

A copied column that no gate queries at the current row had no claimed
value there, so valid proofs were refused with MissingConcreteEval.
---
 src/oracles/witness.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oracles/witness.rs b/src/oracles/witness.rs
index 2d58f49..ce29628 100644
--- a/src/oracles/witness.rs
+++ b/src/oracles/witness.rs
@@ -17,6 +17,15 @@ use super::{
     },
 };
 
+/// Permutation argument reads each copied column at the current row
+fn initial_rotations(should_permute: bool) -> BTreeSet<Rotation> {
+    if should_permute {
+        BTreeSet::from([Rotation::curr()])
+    } else {
+        BTreeSet::new()
+    }
+}
+
 #[derive(Clone)]
 pub struct WitnessProverOracle<F: PrimeField> {
     pub(crate) label: String,
@@ -40,7 +49,7 @@ impl<F: PrimeField> WitnessProverOracle<F> {
             poly,
             evals: evals.to_vec(),
             evals_at_coset_of_extended_domain: None,
-            queried_rotations: BTreeSet::new(),
+            queried_rotations: initial_rotations(should_permute),
             should_permute,
         }
     }
@@ -120,7 +129,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> WitnessVerifierOracle<F, PC> {
         Self {
             label: label.into(),
             evals_at_challenges: BTreeMap::new(),
-            queried_rotations: BTreeSet::new(),
+            queried_rotations: initial_rotations(should_permute),
             commitment: None,
             should_permute,
         }
-- 
2.43.0


From e8f040e53e75951f9a7952ad4ab5150c272b2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:48 +0000
Subject: [PATCH 08/22] fix: extended domain fits the copy argument of a
 reduced vanishing polynomial

With more roots removed from the vanishing polynomial than the scaling
factor the quotient of the copy argument did not fit in the extended
domain and valid proofs were rejected.
---
 src/indexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/indexer.rs b/src/indexer.rs
index afd6806..e6b3203 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -199,10 +199,15 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
+            // grand product of (scaling_factor - 1) columns fits in the
+            // extended domain as long as at most scaling_factor roots are
+            // removed from the vanishing polynomial
+            let removed_roots = domain.size().saturating_sub(z_h.degree());
             max(
                 scaling_factor,
                 PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
             )
+            .max(removed_roots.next_power_of_two())
         } else {
             scaling_factor
         };
-- 
2.43.0


From eb911edadb8d055cdde908cfcb0c745ca08e9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 09/22] fix: proofs with lists of wrong length are refused with
 an error

---
 src/error.rs       |  2 ++
 src/turbo_plonk.rs | 71 ++++++++++++++++++++++------------------------
 2 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..1ced3a3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Some list in the proof has a different number of elements than needed
+    MalformedProof,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..d01ad52 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -715,20 +715,26 @@ where
             .collect();
 
         let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        if num_of_quotient_chunks
+            != vk.index_info.extended_coset_domain.size() / domain_size
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        // Number of elements in the rest of proof is determined by the index,
+        // numbers of evaluations per query set are checked when they are mapped
+        let num_of_lookups = vk.index_info.lookups.len();
+        if proof.witness_commitments.len() != witness_oracles.len()
+            || proof.permutation_oracle_evals.len()
+                != preprocessed.permutation_oracles.len()
+            || proof.lookup_commitments.len() != 2 * num_of_lookups
+            || proof.lookup_evals.len() != 3 * num_of_lookups
+            || proof.lookup_z_commitments.len() != num_of_lookups
+            || proof.lookup_z_evals.len() != 2 * num_of_lookups
+        {
+            return Err(Error::MalformedProof);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -800,7 +806,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -826,7 +834,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -851,7 +861,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -870,10 +882,6 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -902,17 +910,7 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
-
         let lookup_polys: Vec<_> = vk
             .index_info
             .lookups
@@ -982,11 +980,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1016,7 +1009,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1052,7 +1047,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From de2b923869eba44c753f732a63bdc583340dc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:26 +0000
Subject: [PATCH 10/22] fix: claimed evaluations are absorbed before the
 openings are batched

---
 src/turbo_plonk.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index d01ad52..281d3ed 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -411,8 +411,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -424,7 +422,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -505,6 +502,17 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        // All evaluations are fixed before openings are batched
+        fs_rng.absorb(&to_bytes![witness_evals].unwrap());
+        fs_rng.absorb(&to_bytes![fixed_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![table_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![permutation_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![q_blind_eval].unwrap());
+        fs_rng.absorb(&to_bytes![lookup_evals].unwrap());
+        fs_rng.absorb(&to_bytes![lookup_z_evals].unwrap());
+        fs_rng.absorb(&to_bytes![z_evals].unwrap());
+        fs_rng.absorb(&to_bytes![quotient_chunks_evals].unwrap());
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1244,6 +1252,17 @@ where
             return Err(Error::QuotientNotZero);
         }
 
+        // All evaluations are fixed before openings are batched
+        fs_rng.absorb(&to_bytes![proof.witness_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.fixed_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.table_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.permutation_oracle_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.q_blind_eval].unwrap());
+        fs_rng.absorb(&to_bytes![proof.lookup_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.lookup_z_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.z_evals].unwrap());
+        fs_rng.absorb(&to_bytes![proof.quotient_chunks_evals].unwrap());
+
         let mut oracles: Vec<&dyn CommittedOracle<F, PC>> = witness_oracles
             .iter()
             .chain(lookup_polys_to_check_in_opening)
-- 
2.43.0


From 02158ec40c652392de303ad7677092fb799d9b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 11/22] fix: public input is part of the transcript

---
 src/turbo_plonk.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 281d3ed..3a46aa8 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,17 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // public input is absorbed first, ordered by label
+        let instance_polys: BTreeMap<String, &DensePolynomial<F>> =
+            instance_oracles
+                .iter()
+                .map(|oracle| (oracle.get_label(), oracle.polynomial()))
+                .collect();
+        for instance_poly in instance_polys.values() {
+            fs_rng.absorb(&to_bytes![instance_poly.coeffs].unwrap());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -696,7 +706,7 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
@@ -747,6 +757,13 @@ where
         // --------------------------------------------------------------------
         // First round
 
+        // public input is absorbed first, ordered by label
+        for index in instance_oracles_mapping.values() {
+            fs_rng.absorb(
+                &to_bytes![instance_oracles[*index].poly.coeffs].unwrap(),
+            );
+        }
+
         fs_rng.absorb(&to_bytes![&proof.witness_commitments].unwrap());
 
         let (verifier_lookup_aggregation_msg, verifier_state) =
-- 
2.43.0


From ba20f60ae559891aaf95c40960b9a87f4fc021c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 12/22] fix: fourth wire of PlonkArith4 is read

---
 src/vo/precompiled/plonk_arith.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..c4991b1 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,10 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (
+            plonk_expression,
+            vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d],
+        )
     }
 }
 
-- 
2.43.0


From e423369b1ad821cd0b79a03c6e951f8c40a7a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 13/22] fix: verifier reads public and fixed columns of lookup
 inputs at their row offset

---
 src/lookup/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..434f6fa 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -450,6 +450,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Instance => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match instance_oracles_mapping.get(&query.label) {
                             Some(index) => instance_oracles[*index]
                                 .query(&evaluation_challenge),
@@ -459,6 +464,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Fixed => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match fixed_oracles_mapping.get(&query.label) {
                             Some(index) => fixed_oracles[*index]
                                 .query(&evaluation_challenge),
-- 
2.43.0


From b307342290ea742b30b9aa3861c3870b8c347c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 14/22] fix: lookup tables are read at their row offset

---
 src/lookup/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 434f6fa..cff3a3a 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -274,7 +274,11 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
+                                    Ok(table_oracles[*index]
+                                        .query_at_omega_in_original_domain(
+                                            i,
+                                            table_query.rotation,
+                                        ))
                                 }
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
@@ -313,7 +317,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -516,8 +520,14 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => table_oracles[*index]
-                                    .query(&evaluation_challenge),
+                                Some(index) => table_oracles[*index].query(
+                                    &table_query
+                                        .rotation
+                                        .compute_evaluation_point(
+                                            evaluation_challenge,
+                                            omegas,
+                                        ),
+                                ),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
-- 
2.43.0


From 9a7e2d95ad1f7ae02744a8a4c36a9fcaaf33c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 15/22] fix: lookup inputs of higher degree

---
 src/indexer.rs    | 96 ++++++++++++++++++++++++++++-------------------
 src/lookup/mod.rs |  6 ---
 2 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index e6b3203..222bfb9 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -12,7 +12,7 @@ use crate::{
     error::Error,
     lookup::LookupArgument,
     oracles::{
-        query::OracleType,
+        query::{OracleQuery, OracleType},
         traits::{FixedOracle, InstanceOracle, WitnessOracle},
     },
     permutation::PermutationArgument,
@@ -43,8 +43,9 @@ pub struct Indexer<F: PrimeField, PC: HomomorphicCommitment<F>> {
 }
 
 impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
+    /// Returns degrees of quotients of virtual oracles and of lookups
     #[allow(clippy::too_many_arguments)]
-    fn compute_quotient_degree(
+    fn compute_quotient_degrees(
         witness_oracles: &[impl WitnessOracle<F>],
         instance_oracles: &[impl InstanceOracle<F>],
         fixed_oracles: &[impl FixedOracle<F>],
@@ -52,51 +53,68 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         instance_oracles_mapping: &BTreeMap<String, usize>,
         fixed_oracles_mapping: &BTreeMap<String, usize>,
         vos: &[&dyn VirtualOracle<F>],
+        lookups: &[&dyn LookupVirtualOracle<F>],
         domain_size: usize,
         z_h_degree: usize,
-    ) -> Result<usize, Error<PC::Error>> {
-        let mut max_degree = 0;
-        for &vo in vos {
-            let vo_degree =
-                vo.get_expression()?.degree(&|query| -> Result<_, _> {
-                    match query.oracle_type {
-                        OracleType::Witness => {
-                            match witness_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(witness_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingWitnessOracle(
-                                    query.label.clone(),
-                                )),
-                            }
-                        }
-                        OracleType::Instance => {
-                            match instance_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(instance_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingInstanceOracle(
-                                    query.label.clone(),
-                                )),
-                            }
-                        }
-                        OracleType::Fixed => {
-                            match fixed_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(fixed_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingFixedOracle(
-                                    query.label.clone(),
-                                )),
-                            }
+    ) -> Result<(usize, usize), Error<PC::Error>> {
+        let query_degree = |query: &OracleQuery| -> Result<_, _> {
+            match query.oracle_type {
+                OracleType::Witness => {
+                    match witness_oracles_mapping.get(&query.label) {
+                        Some(index) => Ok(
+                            witness_oracles[*index].get_degree(domain_size)
+                        ),
+                        None => Err(PiopError::MissingWitnessOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Instance => {
+                    match instance_oracles_mapping.get(&query.label) {
+                        Some(index) => Ok(instance_oracles[*index]
+                            .get_degree(domain_size)),
+                        None => Err(PiopError::MissingInstanceOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Fixed => {
+                    match fixed_oracles_mapping.get(&query.label) {
+                        Some(index) => {
+                            Ok(fixed_oracles[*index].get_degree(domain_size))
                         }
+                        None => Err(PiopError::MissingFixedOracle(
+                            query.label.clone(),
+                        )),
                     }
-                });
+                }
+            }
+        };
+
+        let mut max_degree = 0;
+        for &vo in vos {
+            let vo_degree = vo.get_expression()?.degree(&query_degree);
             max_degree = max(max_degree, vo_degree?);
         }
 
+        // (q_last + q_blind) * z * (a + beta) * (s + gamma), where a is
+        // lookup expression and the rest are columns
+        let mut lookup_degree = 0;
+        for lookup in lookups {
+            for expression in lookup.get_expressions()? {
+                let a_degree = expression.degree(&query_degree)?;
+                lookup_degree =
+                    max(lookup_degree, 3 * (domain_size - 1) + a_degree);
+            }
+        }
+
         // numerator of lower degree than the vanishing polynomial
         // leaves nothing to commit to
-        max_degree
+        let quotient_degree = max_degree
             .checked_sub(z_h_degree)
-            .ok_or(Error::QuotientTooSmall)
+            .ok_or(Error::QuotientTooSmall)?;
+
+        Ok((quotient_degree, lookup_degree.saturating_sub(z_h_degree)))
     }
 
     fn compute_zh_evals(
@@ -166,7 +184,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let quotient_degree: usize = Self::compute_quotient_degree(
+        let (quotient_degree, lookup_degree) = Self::compute_quotient_degrees(
             witness_oracles,
             instance_oracles,
             fixed_oracles,
@@ -174,6 +192,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             &instance_oracles_mapping,
             &fixed_oracles_mapping,
             vos,
+            &lookups,
             domain.size(),
             z_h.degree(),
         )?;
@@ -214,6 +233,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let scaling_factor = if !lookups.is_empty() {
             max(scaling_factor, LookupArgument::<F>::MINIMAL_SCALING_FACTOR)
+                .max((lookup_degree + 1).next_power_of_two() / domain.size())
         } else {
             scaling_factor
         };
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index cff3a3a..ad9c41d 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -243,12 +243,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From 8bb565b99d157b4fb6b5735d0c6606fe2759bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:24 +0000
Subject: [PATCH 16/22] fix: permutation and blinding columns are opened
 however they were built

---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..e7e1dbc 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -82,6 +83,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
 
         for oracle in permutation_oracles.iter_mut() {
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
+            // permutation oracles are always opened in evaluation challenge
+            oracle.register_rotation(Rotation::curr());
         }
 
         for oracle in table_oracles.iter_mut() {
@@ -90,6 +93,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
 
         let mut q_blind = q_blind.clone();
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
+        q_blind.register_rotation(Rotation::curr());
 
         Self {
             empty_rands_for_fixed: vec![
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 3a46aa8..83bd920 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -912,6 +912,7 @@ where
             .iter_mut()
             .zip(proof.permutation_oracle_evals.iter())
         {
+            sigma.register_rotation(Rotation::curr());
             sigma.register_eval_at_challenge(verifier_second_msg.xi, eval);
         }
 
@@ -1097,6 +1098,7 @@ where
             };
         }
 
+        preprocessed.q_blind.register_rotation(Rotation::curr());
         preprocessed.q_blind.register_eval_at_challenge(
             verifier_second_msg.xi,
             proof.q_blind_eval,
-- 
2.43.0


From 7eaeca20adb7989489d943a353c39d8bd0d15685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:16 +0000
Subject: [PATCH 17/22] fix: sums of polynomials whose leading terms cancel no
 longer panic

---
 src/multiproof/piop/mod.rs    | 2 +-
 src/multiproof/piop/prover.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 1cfa04b..e169d5b 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -234,7 +234,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
 
                 let mut r_poly = DensePolynomial::zero();
                 for (l_i, &r_i) in lagrange_bases.iter().zip(r_evals.iter()) {
-                    r_poly += &(l_i * r_i)
+                    r_poly = &r_poly + &(l_i * r_i)
                 }
 
                 Ok((q_eval - r_poly.evaluate(&verifier_second_msg.x3))
diff --git a/src/multiproof/piop/prover.rs b/src/multiproof/piop/prover.rs
index 8ea77d6..3252e5d 100644
--- a/src/multiproof/piop/prover.rs
+++ b/src/multiproof/piop/prover.rs
@@ -172,7 +172,7 @@ impl<F: PrimeField> PIOP<F> {
 
         let mut f_agg_poly = DensePolynomial::zero();
         for (i, f_i) in f_polys.iter().enumerate() {
-            f_agg_poly += &(f_i * x2_powers[i])
+            f_agg_poly = &f_agg_poly + &(f_i * x2_powers[i])
         }
 
         // f is blinded with degree 1
@@ -225,7 +225,8 @@ impl<F: PrimeField> PIOP<F> {
         for (i, (q_poly, q_rand)) in
             q_polys.iter().zip(q_rands.iter()).enumerate()
         {
-            final_poly += &(q_poly.polynomial() * x4_powers[i]);
+            final_poly =
+                &final_poly + &(q_poly.polynomial() * x4_powers[i]);
             final_poly_rand = PC::add_rands(
                 &final_poly_rand,
                 &PC::scale_rand(q_rand, x4_powers[i]),
-- 
2.43.0


From 3048a3d9fb861863cbc0ff181b3ffbf526fea981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:45 +0000
Subject: [PATCH 18/22] fix: sums of randomness whose leading terms cancel no
 longer panic

---
 src/commitment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/commitment.rs b/src/commitment.rs
index 44ec0ad..ea8a678 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -108,10 +108,13 @@ where
         a: &Self::Randomness,
         b: &Self::Randomness,
     ) -> Self::Randomness {
-        a.clone() + b
+        let mut rand = Self::Randomness::empty();
+        rand.blinding_polynomial =
+            &a.blinding_polynomial + &b.blinding_polynomial;
+        rand
     }
 
     fn add_assign_rand(a: &mut Self::Randomness, b: &Self::Randomness) {
-        a.blinding_polynomial += &b.blinding_polynomial
+        a.blinding_polynomial = &a.blinding_polynomial + &b.blinding_polynomial
     }
 }
-- 
2.43.0


From dc15ba7ffbf4cfda53cb831c9d2634698e906686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:43 +0000
Subject: [PATCH 19/22] fix: inverses of a vanishing polynomial that does not
 fit the extended domain

---
 src/indexer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 222bfb9..971dda0 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -146,7 +146,18 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
         } else {
-            let mut zh_evals = extended_coset_domain.coset_fft(&z_h);
+            // fft drops the coefficients that do not fit the domain
+            let mut zh_evals =
+                if z_h.coeffs.len() <= extended_coset_domain.size() {
+                    extended_coset_domain.coset_fft(&z_h)
+                } else {
+                    extended_coset_domain
+                        .elements()
+                        .map(|x| {
+                            z_h.evaluate(&(x * F::multiplicative_generator()))
+                        })
+                        .collect()
+                };
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
         }
-- 
2.43.0


From d7e9f4d1d9c02355478d03896971aad587ef29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 20/22] fix: copied columns without permutation columns are
 refused with an error

---
 src/permutation/mod.rs | 19 +++++++++++++++++++
 src/piop/prover.rs     | 10 +++++++---
 src/turbo_plonk.rs     |  6 +++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/permutation/mod.rs b/src/permutation/mod.rs
index b8978f5..fac531d 100644
--- a/src/permutation/mod.rs
+++ b/src/permutation/mod.rs
@@ -83,6 +83,25 @@ impl<F: PrimeField> PermutationArgument<F> {
         2 * num_of_z_polys + 1 + 1 - 1
     }
 
+    /// Each copied column needs its permutation oracle and its delta
+    pub fn check_number_of_columns(
+        &self,
+        num_of_copied: usize,
+        num_of_permutation_oracles: usize,
+    ) -> Result<(), PiopError> {
+        if num_of_copied != num_of_permutation_oracles
+            || num_of_copied != self.deltas.len()
+        {
+            return Err(PiopError::MissingPermutationOracle(format!(
+                "copied columns: {}, permutation oracles: {}, deltas: {}",
+                num_of_copied,
+                num_of_permutation_oracles,
+                self.deltas.len()
+            )));
+        }
+        Ok(())
+    }
+
     #[allow(clippy::too_many_arguments)]
     pub fn construct_agg_polys<R: RngCore>(
         &self,
diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..1e9637e 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -150,11 +150,15 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
         preprocessed: &ProverPreprocessedInput<F, PC>,
         extended_coset_domain: &GeneralEvaluationDomain<F>,
         zk_rng: &mut R,
-    ) -> Vec<WitnessProverOracle<F>> {
+    ) -> Result<Vec<WitnessProverOracle<F>>, PiopError> {
+        permutation_argument.check_number_of_columns(
+            state.oracles_to_copy.len(),
+            preprocessed.permutation_oracles.len(),
+        )?;
         // if nothing to copy just return empty vector
         if state.oracles_to_copy.is_empty() {
             state.z_polys = Some(vec![]);
-            return vec![];
+            return Ok(vec![]);
         }
         let z_polys = permutation_argument.construct_agg_polys(
             &state.oracles_to_copy,
@@ -167,7 +171,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
         );
 
         state.z_polys = Some(z_polys.clone());
-        z_polys
+        Ok(z_polys)
     }
 
     pub fn prover_lookup_round<R: Rng>(
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 83bd920..d824236 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -332,7 +332,7 @@ where
                 preprocessed,
                 &pk.vk.index_info.extended_coset_domain,
                 zk_rng,
-            );
+            )?;
 
         let z_polys_labeled: Vec<_> =
             z_polys.iter().map(|z| z.to_labeled()).collect();
@@ -921,6 +921,10 @@ where
                 .iter()
                 .filter(|&oracle| oracle.should_permute)
                 .collect();
+        vk.index_info.permutation_argument.check_number_of_columns(
+            oracles_to_copy.len(),
+            preprocessed.permutation_oracles.len(),
+        )?;
 
         // Lookups parts
         /*
-- 
2.43.0


From 18af4de33ca2998b4563291a32f4a4e36aaad424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 21/22] fix: lookups with different numbers of inputs and table
 columns are refused with an error

---
 src/lookup/mod.rs | 15 +++++++++++++--
 src/piop/error.rs |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index ad9c41d..9360725 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -94,7 +94,12 @@ impl<F: PrimeField> LookupArgument<F> {
         // 4. Compute cosets and polys for a_prime and s_prime
 
         // each lookup expressions is matched with one table query
-        assert_eq!(lookup_expressions.len(), table_queries.len());
+        if lookup_expressions.len() != table_queries.len() {
+            return Err(PiopError::LookupArityMismatch(
+                lookup_expressions.len(),
+                table_queries.len(),
+            ));
+        }
         let lookup_arith = lookup_expressions.len();
 
         let powers_of_theta: Vec<F> =
@@ -421,7 +426,13 @@ impl<F: PrimeField> LookupArgument<F> {
         (WitnessVerifierOracle<F, PC>, WitnessVerifierOracle<F, PC>),
         Error<PC::Error>,
     > {
-        assert_eq!(lookup_expressions.len(), table_queries.len());
+        if lookup_expressions.len() != table_queries.len() {
+            return Err(PiopError::LookupArityMismatch(
+                lookup_expressions.len(),
+                table_queries.len(),
+            )
+            .into());
+        }
         let lookup_arith = lookup_expressions.len();
 
         let powers_of_theta: Vec<F> =
diff --git a/src/piop/error.rs b/src/piop/error.rs
index 4c9723c..c7874b3 100644
--- a/src/piop/error.rs
+++ b/src/piop/error.rs
@@ -40,6 +40,8 @@ pub enum Error {
     //This feaure may get introduced in the future
     //see: https:github.com/zcash/halo2/issues/534
     InstanceTableNotAllowed(String),
+    /// Lookup has different number of expressions and table queries.
+    LookupArityMismatch(usize, usize),
     /// Rotations of challenge result in the same point.
     RepeatedRotation(Rotation),
     /// Virtual Oracle error
-- 
2.43.0


From 6b1a3323a25a627cb555cba87d640df2e4a1662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 22/22] verif: hook on the verifier's quotient residual (cfg
 zok_verif)

---
 src/turbo_plonk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index d824236..28f4685 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -1271,6 +1271,9 @@ where
 
         quotient_eval -= t_part;
 
+        #[cfg(zok_verif)]
+        crate::verif_hooks::intercept("quotient_eval", 0, &mut quotient_eval);
+
         if quotient_eval != F::zero() {
             return Err(Error::QuotientNotZero);
         }
-- 
2.43.0

