From 5b711949c2450b81b1d121d178e10b5516b70dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:16 +0000
Subject: [PATCH 1/9] fix: compare the other point's identity flag in curve
 point equality

---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From 984d0e105fac456a52fea6c6e1a41c6ab871c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 2/9] fix: make the default curve point the identity

---
 src/curves/ec0.rs | 9 ++++++++-
 src/curves/ec1.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index fbffee5..a65a30c 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -2,13 +2,20 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec0 {
     x: Fq,
     y: Fq,
     z: Fq,
 }
 
+impl Default for Ec0 {
+    /// Returns the identity.
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec0 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index da61392..7c4d996 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -2,13 +2,20 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec1 {
     x: Fp,
     y: Fp,
     z: Fp,
 }
 
+impl Default for Ec1 {
+    /// Returns the identity.
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec1 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
-- 
2.43.0


From 6e993ca1f13111e9f126d2a7b00b9fb8d734aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 3/9] fix: constrain a witnessed identity point to the
 coordinates (0, 0)

---
 src/gadgets/ecc.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..48a20a3 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -80,10 +80,14 @@ impl<C: Curve> CurvePoint<C> {
         // h = x
         // i := x^3
         //
+        // i + B * (1 - is_identity) - c = 0
+        //
         // j * k = l
-        // j = i + B - c
-        // k = (1 - is_identity)
+        // j = x
+        // k = is_identity
         // l = 0
+        //
+        // If is_identity is set then x = 0, and thus y^2 = 0.
 
         let ysq = y_val.map(|y| y * &y);
         let xsq = x_val.map(|x| x * &x);
@@ -109,21 +113,16 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(x.lc() - h_var);
 
         let (j_var, k_var, l_var) = cs.multiply(
-            || "(x^3 + B - y^2) * (1 - is_identity) = 0",
-            || {
-                Ok((
-                    xcub? + &C::b() - &ysq?,
-                    (!is_identity_val?).into(),
-                    C::Base::zero(),
-                ))
-            },
+            || "x * is_identity = 0",
+            || Ok((x_val?, is_identity_val?.into(), C::Base::zero())),
         )?;
         cs.enforce_zero(
-            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE) - c_var - j_var,
-        );
-        cs.enforce_zero(
-            LinearCombination::zero() + (Coeff::One, CS::ONE) - is_identity.get_variable() - k_var,
+            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE)
+                - (Coeff::Full(C::b()), is_identity.get_variable())
+                - c_var,
         );
+        cs.enforce_zero(x.lc() - j_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - k_var);
         cs.enforce_zero(LinearCombination::from(l_var));
 
         Ok(CurvePoint {
-- 
2.43.0


From e104238aaa8f4f20f74453d75725cb2a859161d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 4/9] fix: constrain the coordinates returned by
 CurvePoint::add_incomplete

---
 src/gadgets/ecc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 48a20a3..a1cd729 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -343,6 +343,9 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
 
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
+
         Ok(CurvePoint {
             x: x_r.into(),
             y: y_r.into(),
-- 
2.43.0


From 2a9f63ff0395d10600f4ad4fb6e28ea72de8eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 5/9] fix: constrain the coordinates and identity flag returned
 by CurvePoint::add

---
 src/gadgets/ecc.rs | 55 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index a1cd729..4adedf3 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -743,21 +743,46 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
+        // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
 
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+                let p3_is_identity: C::Base = p3_is_identity.into();
+                let difference = x_is_same - &p3_is_identity;
 
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+                // If (y1 + y2) is zero then the inverse is unconstrained
+                let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+                Ok((y1 + &y2, y1y2inv * &difference, difference))
+            },
+        )?;
+        cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+
+        // From here on use the (x3, y3) that the constraints define. These
+        // differ from the coordinates of p1 + p2 when p1 or p2 is the identity.
+        let x3_val = lambda_sq_val
+            .and_then(|lambda_sq| x1_val.and_then(|x1| x2_val.map(|x2| lambda_sq - &x1 - &x2)));
+        let y3_val = lambda_val.and_then(|lambda| {
+            x1_val.and_then(|x1| {
+                y1_val.and_then(|y1| x3_val.map(|x3| (lambda * &(x1 - &x3)) - &y1))
+            })
+        });
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -769,8 +794,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -783,8 +807,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From 4de3d6aca9c8ea2663954bd91beea2893525687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 6/9] fix: constrain the inverse returned by multiply_inv to be
 a valid point

---
 src/gadgets/ecc.rs | 33 +++------------------------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 4adedf3..9582716 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1985,36 +1985,9 @@ impl<C: Curve> CurvePoint<C> {
             }
         }
 
-        let inverted_val = p.map(|p| {
-            let inv = mulby.invert();
-            if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
-            } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
-                } else {
-                    (C::Base::zero(), C::Base::zero(), true)
-                }
-            }
-        });
-
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+        let inverted = CurvePoint::witness(cs.namespace(|| "inverted"), || {
+            p.map(|p| p * &mulby.invert().unwrap_or(C::Scalar::zero()))
+        })?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0


From e6b0830a1eae413aa25b57af619395c05321ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 7/9] fix: make multiply_fast return the point itself for a
 one-bit scalar

---
 src/gadgets/ecc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 9582716..3c88af6 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1809,6 +1809,13 @@ impl<C: Curve> CurvePoint<C> {
         if let Some(b) = other.last().unwrap().get_value() {
             assert_eq!(b, true);
         }
+
+        // The accumulator starts at [3] T for the two top bits, so a scalar of
+        // one (set) bit has to be handled on its own.
+        if other.len() == 1 {
+            return Ok(self.clone());
+        }
+
         let mut acc = self.double(cs.namespace(|| "[2] Acc"))?;
         acc = acc.add_incomplete(cs.namespace(|| "[3] Acc"), self)?;
 
-- 
2.43.0


From 86f294ade56e6323977ac834cdb9e209699b2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 8/9] fix: make determinism_check reject a second synthesis
 that issues fewer events

---
 src/dev.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dev.rs b/src/dev.rs
index ecbe828..8d6c7a9 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -578,6 +578,9 @@ pub fn determinism_check<F: Field, C: Circuit<F>>(circuit: &C) -> Result<(), Syn
 
     circuit.synthesize(&mut enforce)?;
 
+    // The second synthesis must not have issued fewer events than the first.
+    assert!(enforce.events.next().is_none());
+
     Ok(())
 }
 
-- 
2.43.0


From 5d99d508cfc183dd0396fdbc07f31817e589d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:15 +0000
Subject: [PATCH 9/9] hook: check_verification_circuit, compiled only with
 --cfg halo_verif

---
 src/recursion.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/recursion.rs b/src/recursion.rs
index ff28cc8..96a69b1 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -1718,3 +1718,54 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
         )
     }
 }
+
+/// Verification hook, compiled only with `--cfg halo_verif`: checks the
+/// assignment of the verification circuit assembled from the given parts
+/// against the given public inputs.
+#[cfg(halo_verif)]
+pub fn check_verification_circuit<E1, E2, Inner>(
+    params: &Params<E2>,
+    inner_circuit: &Inner,
+    base_case: bool,
+    proof: Option<(
+        Proof<E2>,
+        Leftovers<E2>,
+        Leftovers<E1>,
+        Deferred<E1::Scalar>,
+        Vec<u8>,
+    )>,
+    new_payload: &[u8],
+    forkvalues: &[u8],
+    old_leftovers: Leftovers<E1>,
+    new_leftovers: Leftovers<E2>,
+    deferred: Deferred<E2::Scalar>,
+    inputs: &[E1::Scalar],
+) -> Result<bool, crate::dev::SatisfactionError<E1::Scalar>>
+where
+    E1: Curve<Base = <E2 as Curve>::Scalar>,
+    E2: Curve<Base = <E1 as Curve>::Scalar>,
+    Inner: RecursiveCircuit<E1::Scalar>,
+{
+    let proof = proof.map(
+        |(proof, oldproof1, oldproof2, deferred, payload)| RecursiveProof::<E2, E1> {
+            proof,
+            oldproof1,
+            oldproof2,
+            deferred,
+            payload,
+        },
+    );
+    let circuit = VerificationCircuit::<E1, E2, Inner> {
+        _marker: PhantomData,
+        params,
+        base_case: Some(base_case),
+        inner_circuit,
+        proof: proof.as_ref(),
+        new_payload,
+        forkvalues: Some(forkvalues),
+        old_leftovers: Some(old_leftovers),
+        new_leftovers: Some(new_leftovers),
+        deferred: Some(deferred),
+    };
+    crate::dev::is_satisfied::<_, _, Basic>(&circuit, inputs)
+}
-- 
2.43.0

