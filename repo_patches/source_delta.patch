From 14eafddc6e8c25433146b586caf04c5479dffcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 01/12] fix: limit quotient digit estimates in division to a
 single digit

---
 src/ubig/div.rs      | 10 +++++++++-
 src/ubig/div/long.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..29c5ae1 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -100,7 +100,15 @@ where T: Digit
                 for digit in nr[..n-1].iter_mut().rev()
                 {
                     let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    if rem_high < den_high
+                    {
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
+                    else
+                    {
+                        // The estimate would not fit in a digit
+                        quot = T::MAX;
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..277de3d 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -103,7 +103,15 @@ where T: Digit
     for iq in (0..nnum-nden).rev()
     {
         q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        if num[iq+nden] < msd
+        {
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
+        else
+        {
+            // The estimate would not fit in a digit
+            q = T::MAX;
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 99bdb4bd9bb465dd00c0f55687f37414881abc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 02/12] fix: keep scaled denominator within its digits in
 decimal division

---
 src/ubig/div.rs      | 32 +++++++++++++++++++++++---------
 src/ubig/div/bz.rs   |  7 +++----
 src/ubig/div/long.rs |  2 +-
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index 29c5ae1..371ada5 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -68,6 +68,25 @@ where T: Digit
     }
 }
 
+/// Shift the denominator `den` left such that its most significant digit is at least half the radix,
+/// and return the number of bits by which it was shifted.
+fn scale_denominator<T>(den: &mut [T]) -> usize
+where T: Digit
+{
+    let shift = den[den.len()-1].max_shift() as usize;
+    let carry = crate::ubig::shl::shl_carry_assign_within_digit(den, shift, T::zero());
+    if carry.is_zero()
+    {
+        shift
+    }
+    else
+    {
+        // The carry from the lower digits made the most significant digit overflow
+        crate::ubig::shr::shr_carry_assign_within_digit(den, 1, carry);
+        shift - 1
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -86,15 +105,10 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
-                let (mut den_low, mut den_high) = (fac_low, fac_high);
-                let mut rem_high = T::zero();
-                if shift > 0
-                {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
-                    rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
-                }
+                let mut den = [fac_low, fac_high];
+                let shift = scale_denominator(&mut den);
+                let [den_low, den_high] = den;
+                let mut rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
 
                 for digit in nr[..n-1].iter_mut().rev()
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..6ac3fea 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,12 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = super::scale_denominator(&mut sden);
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +57,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 277de3d..665bc18 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -50,7 +50,7 @@ where T: Digit
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
+        let shift = super::scale_denominator(&mut scaled_den);
         let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
-- 
2.43.0


From 696ac0ab0532661569e65006d57fb9dd3f5fd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 03/12] fix: keep all digits when subtracting an integer above
 the decimal radix

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..5af157e 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -865,7 +865,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
             *self -= low;
             match super::sub::sub_assign_digit(&mut self.digits[1..], high)
             {
-                Ok(nd) => { self.digits.truncate(nd); },
+                Ok(nd) => { self.digits.truncate(1 + nd); self.drop_leading_zeros(); },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
             }
         }
-- 
2.43.0


From 2e08be2e706a4ab967693644ce832564bbd9b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 04/12] fix: drop all leading zeros from differences

---
 src/ubig/sub.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..9fee92b 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From 221c04e004d743d4b697c5c82fd99beda7c94cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 05/12] fix: do not store a corrected leading quotient digit
 that is zero

---
 src/ubig/div/long.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 665bc18..b7699b3 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,7 +96,14 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From d220f2f1ff12a0081bd91ef78a76cdac03dc5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 06/12] fix: shifting zero left yields zero

---
 src/ubig/ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 5af157e..04550bd 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -704,6 +704,11 @@ where BinaryDigit<T>: Digit
 {
     fn shl_assign(&mut self, n: usize)
     {
+        if self.is_zero()
+        {
+            return;
+        }
+
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if low != 0
         {
@@ -725,6 +730,11 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 {
     fn shl_assign(&mut self, n: usize)
     {
+        if self.is_zero()
+        {
+            return;
+        }
+
         if n <= 4 * DecimalDigit::<T>::MAX_HEX_PLACES
         {
             let carry = super::shl::shl_carry_assign_within_digit(&mut self.digits, n, DecimalDigit::zero());
-- 
2.43.0


From 8b0764787a14cdbc78cfe4d722500f7e364ffd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 07/12] fix: shifting a binary number right past its end yields
 zero

---
 src/ubig/ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 04550bd..cd1e98a 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -780,7 +780,11 @@ where BinaryDigit<T>: Digit
     fn shr_assign(&mut self, n: usize)
     {
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
-        if high != 0
+        if high >= self.nr_digits()
+        {
+            self.digits.clear();
+        }
+        else if high != 0
         {
             self.digits.drain(..high);
         }
-- 
2.43.0


From 75bf37a13e1442be49639cfa8647a4d90f1ef26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 08/12] fix: implement right shift of decimal numbers by many
 bits

---
 src/ubig/ops.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index cd1e98a..d250fd3 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -812,10 +812,15 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.truncate(nd);
             }
         }
+        else if n / (8 * std::mem::size_of::<T>()) >= self.nr_digits()
+        {
+            self.digits.clear();
+        }
         else
         {
-            // FIXME
-            unimplemented!()
+            let two = UBig::one() + UBig::one();
+            let scale = two.pow(n);
+            *self /= scale;
         }
     }
 }
-- 
2.43.0


From 7317ce68b46373f10b7841f51755e2244f5da23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 09/12] fix: keep zeros between parts when converting large
 numbers to decimal

---
 src/ubig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..773a7bb 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -332,7 +332,12 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                if !high_dec.is_zero()
+                {
+                    // The low part may have fewer digits than the scale by which we divided
+                    res.digits.resize(1 << idx, DecimalDigit::zero());
+                    res.digits.extend(high_dec.digits);
+                }
                 res
             }
         }
-- 
2.43.0


From 26f674e4705ed4b9b05933d89f79b18920209b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 10/12] fix: refuse plus signs when parsing numbers

---
 src/ubig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 773a7bb..02bd334 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -411,7 +411,8 @@ where T: DigitStorage, BinaryDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        // Signs are not part of a number, but would be accepted at the start of each part below
+        if !s.is_ascii() || s.contains('+')
         {
             Err(Error::InvalidNumber)
         }
@@ -448,7 +449,8 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        // Signs are not part of a number, but would be accepted at the start of each part below
+        if !s.is_ascii() || s.contains('+')
         {
             Err(Error::InvalidNumber)
         }
-- 
2.43.0


From 4fae555a3cf66d1e1d920d1e849af7e131a97edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 11/12] fix: leave dividend unchanged when dividing by zero
 fails

---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 02bd334..2491812 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if other.is_zero()
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From be7728e0bd001c2627a2af6228c38b99de397768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 12/12] fix: clear scratch space in Toom-Cook squaring

---
 src/ubig/mul/toom3.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..ab38e54 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,9 +306,11 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
+    work.fill(T::zero());
     let (r1, work) = work.split_at_mut(2*b+3);
     let (rm1, rm2) = work.split_at_mut(2*b+3);
 
-- 
2.43.0

