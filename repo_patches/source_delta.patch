From 33942b20b2be8b961af2329d866d7a75c9292927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 01/54] fix: Nat right shift by whole words kept the wrong
 words, and left a stale top word

---
 src/bigint/nat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..27538a2 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -467,6 +467,11 @@ impl Nat {
             return;
         }
 
+        if nom == 0 {
+            v.drain(..num);
+            return;
+        }
+
         let lhs = self.clone();
         let mut pre = 0;
         if nom > 0 {
@@ -490,7 +495,7 @@ impl Nat {
                 _ => {},
             };
         } else {
-            if nom > 0 && num == 0 {
+            if nom > 0 {
                 v.pop();
                 if v.len() == 0 {
                     v.push(0);
-- 
2.43.0


From 78379a3b6bbc6e902b3a6ee58a7c2e8891068dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 02/54] fix: Nat left shift of zero produced redundant zero
 words

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 27538a2..68de5f6 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -449,7 +449,7 @@ impl Nat {
             if pre > 0 {v.push(pre);}
         }
         
-        if num > 0 {
+        if num > 0 && v.as_slice() != [0] {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
-- 
2.43.0


From 8101901644e43517e0df6efe06993635403e90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 03/54] fix: Nat * u32 left redundant leading zero words

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 68de5f6..21779e2 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -640,6 +640,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From a4505ea571a2637c1b773d408ae5905a0356aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 04/54] fix: Nat - u32 left a redundant leading zero word

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From 47bf5f4fa1a8bbcbfd5e35d8bb23d832fdfe62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 05/54] fix: random Nat had redundant leading zero words

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 21779e2..0fb3c3b 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -849,6 +849,7 @@ impl Nat {
                 break;
             }
         }
+        n.trim_head_zero();
     }
 
     /// generate a random number that belong to the range of [0, self)
-- 
2.43.0


From 015879e6c6407aefef74ee2f3d5c97e047c39b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 06/54] fix: Miller-Rabin with the base 0 declared primes
 composite

---
 src/bigint/nat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 0fb3c3b..23bd25a 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -909,6 +909,9 @@ impl Nat {
         
         for _ in 0..s {
             self.random_inner(&mut a, rng);
+            while a == 0u32 {
+                self.random_inner(&mut a, rng);
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From e76efe613e2fee2e7afe72c1c5310aea80240a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 07/54] fix: Nat::exp overflowed a shift when the top word of
 the exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 23bd25a..45a3e91 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1815,7 +1815,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From 7be3ea47ea9504a681732ed8a4a9a274bf384f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 08/54] fix: Nat remainder by a handle to the same number did
 not terminate

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 45a3e91..9686227 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -562,6 +562,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From fff86b9e8a5e627f8918250ef237fd91d03682df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 09/54] fix: Nat parsing accepted a base prefix without digits

---
 src/bigint/nat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 9686227..40567ae 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -2117,6 +2117,9 @@ impl FromStr for Nat {
         let s = s.trim();
         let (i, base) = Self::check_base(s)?;
         let s = &s[i..];
+        if s.is_empty() {
+            return Err(NatError::new(BeginWithIllegalChar, "no digits after the base prefix"));
+        }
         
         match base {
             2 => Self::from_bin_str(s),
-- 
2.43.0


From 9d6cf6824200844521c9254a5cbe330736facecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 10/54] fix: Nat and_not ignored a NaN operand

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 40567ae..4cfbd5c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if self.is_nan() || rhs.is_nan() {
+            self.clear();
+            return;
+        }
+
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From 6bd012301f4c7b4e6d35ecdbdb2a939d1b35d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 11/54] fix: generate_prime panicked when the random source
 failed

---
 src/bigint/nat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4cfbd5c..beba53d 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1991,8 +1991,12 @@ impl Nat {
         let mut p = Nat::with_capacity(len);
         loop {
             p.as_mut_vec().clear();
-            for x in rng.iter_mut().take(len) {
-                p.as_mut_vec().push(x);
+            let mut itr = rng.iter_mut();
+            while p.num() < len {
+                match itr.next() {
+                    Some(x) => p.as_mut_vec().push(x),
+                    None => itr.clear_error(),
+                }
             }
             
             // 清除大于bits_len的位;
-- 
2.43.0


From e8e098c95bc07c8a341dd5a24ef7e1cbad18bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 12/54] fix: BigInt remainder that is zero keeps a negative
 sign

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..d590c3f 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -465,6 +465,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 66dfbffa0603da955c223c92597c794aed7d69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 13/54] fix: BigInt quotient that is zero keeps a negative sign

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d590c3f..3ae1688 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
-- 
2.43.0


From d5a8650203b8a0a93709c090bbfe4d60f6e9e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 14/54] fix: BigInt | of mixed signs had the and-not operands
 swapped

---
 src/bigint/bigint.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3ae1688..8e77716 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -516,16 +516,14 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
+            let res = if self.sign == Negative {
+                (self.nat.clone() - 1u32).and_not(rhs.nat)
             } else {
-                rhs.nat - 1u32
+                (rhs.nat - 1u32).and_not(self.nat.clone())
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            self.nat.clear();
+            self.nat.as_mut_vec().extend(res.iter());
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From b93c58569f3a6dbc59597cb23ecdf40727efe74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 15/54] fix: BigInt and_not of two negatives had its operands
 swapped

---
 src/bigint/bigint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 8e77716..d1cde72 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -541,9 +541,9 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let res = (rhs.nat - 1u32).and_not(self.nat.clone() - 1u32);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(res.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 30f95267129132fd0e3bc810bdd607bdf79887af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 16/54] fix: BigInt bit operations with an operand sharing the
 digits of self

---
 src/bigint/bigint.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d1cde72..645d5d1 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,8 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -490,8 +490,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let lhs1 = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs1.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
@@ -505,8 +506,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -552,8 +553,9 @@ impl BigInt {
         } else {
             if self.sign == Negative {
                 // (-x) &^ y == ^(x-1) &^ y == ^(x-1) & ^y == ^((x-1) | y) == -(((x-1) | y) + 1)
+                let rhs1 = rhs.nat.deep_clone();
                 self.nat -= 1u32;
-                self.nat |= rhs.nat;
+                self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -576,8 +578,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
@@ -588,8 +590,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let lhs1 = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs1.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
-- 
2.43.0


From 3fb15f60aff76280c1be8230b968e43802c1c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 17/54] fix: BigInt binary formatting always printed the 0b
 prefix

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 645d5d1..81af2ab 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1065,7 +1065,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From 5f64ea5cf1b932964b024c3b9ebb0b2048580ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 18/54] fix: BigInt is_set_bit of a negative power of two lost
 its top bit

---
 src/bigint/bigint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 81af2ab..e94d5ab 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -698,7 +698,11 @@ impl BigInt {
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            if i >= self.bits_len() {
+                None
+            } else {
+                Some(!t.is_set_bit(i).unwrap_or(false))
+            }
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From 6f3f66d7b2534bf34901feb680347c0b9018e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 19/54] fix: BigInt exp of a negative base and negative
 exponent flipped the sign twice

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index e94d5ab..8016ba8 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -671,7 +671,7 @@ impl BigInt {
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        let is_neg = if !b.is_negative() && !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From 46d6ad6c4673226af3865e4886c917b138eaf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 20/54] fix: BigInt mul_range overflowed on i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 8016ba8..3dadb44 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -618,7 +618,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b.wrapping_sub(a)) & 1) == 0, b.unsigned_abs(), a.unsigned_abs())
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From ecf3098d80a6bbf7f07d3ed9552b98aa5664e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 21/54] fix: BigInt binomial(n, n) overflowed for the greatest
 n

---
 src/bigint/bigint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3dadb44..5867534 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -637,6 +637,10 @@ impl BigInt {
             k = n - k;
         }
         
+        if k == 0 {
+            return BigInt::from(1u32);
+        }
+        
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
         
-- 
2.43.0


From 2602ceba13efb2b1336b46cc71af067aeeb29820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 22/54] fix: Rat zero kept the denominator of the computation

---
 src/bigint/rat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..459251b 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -324,6 +324,7 @@ impl Rat {
         let mut t = true;
         if self.a.is_nan() || self.a.nat == 0u32 {
             self.a.sign = Natural;
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From 6b1a01e8bb973bd0582e3b1337b08012430c8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 23/54] fix: Rat from_frac overflowed on isize::MIN

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 459251b..58bfb93 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator.unsigned_abs()),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From ac5d1256440280dbce364b05d67e45366d58fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 24/54] fix: Rat from a float of 2^53 or more scaled the
 denominator

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 58bfb93..d5fe789 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -99,8 +99,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From 658a1500874f508673f6236c48aeeb14b4821650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 25/54] fix: Rat to_f32 panicked on zero

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index d5fe789..5db0a1d 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -166,7 +166,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 016b9d96f1da59cc926e723186085a9e5e41f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 26/54] fix: Rat to_f32/to_f64 called an underflow to zero
 exact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 5db0a1d..ed90a17 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -229,7 +229,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
@@ -316,7 +316,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 6c45884a25111a33c93354e45e3eebaa7eaa0840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 27/54] fix: Rat parsed from a fraction was not reduced

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index ed90a17..c83c86a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -727,7 +727,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From daa8affb3001f750d41ed7a64c3a87c036a951ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 28/54] fix: Rat parsed decimal text through f64 and lost
 digits

---
 src/bigint/rat.rs | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index c83c86a..2802b48 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -323,6 +323,42 @@ impl Rat {
         }
     }
     
+    /// `s` must be a decimal number with a point, such as "-32.03", ".5" or "1.e10"
+    fn from_decimal(s: &str) -> Result<Rat, RatError> {
+        let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
+            Some(i) => (&s[..i], &s[(i+1)..]),
+            None => (s, "0"),
+        };
+        let frac_len = mant.len() - mant.find('.').map_or(mant.len(), |i| i + 1);
+        let digits: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
+        let digits = digits.trim_start_matches('0');
+        let mut a = match BigInt::from_str(if digits.is_empty() {"0"} else {digits}) {
+            Ok(i) => i,
+            Err(e) => { return Err(RatError::new(RatErrKind::ParseStringWrong, e)); }
+        };
+        if mant.starts_with('-') {
+            a.set_negative();
+        }
+        
+        let mut b = BigInt::from(1u32);
+        if a != 0u32 {
+            let exp = match i64::from_str(exp) {
+                Ok(e) if e >= -100_000 && e <= 100_000 => e - (frac_len as i64),
+                _ => { return Err(RatError::new(RatErrKind::ParseStringWrong, format!("the exponent of {} is too large", s))); }
+            };
+            let scale = Nat::from(10u32).pow(Nat::from(exp.unsigned_abs()));
+            if exp >= 0 {
+                a.nat *= scale;
+            } else {
+                b.nat = scale;
+            }
+        }
+        
+        let mut z = Rat {a, b};
+        z.norm();
+        Ok(z)
+    }
+    
     fn norm(&mut self) {
         let mut t = true;
         if self.a.is_nan() || self.a.nat == 0u32 {
@@ -689,13 +725,7 @@ impl FromStr for Rat {
             Err(RatError::new(RatErrKind::ParseStringWrong, "empty string"))
         } else if s.find('.').is_some() {
             match f64::from_str(s) {
-                Ok(f) => {
-                    if f.is_nan() {
-                        Err(RatError::new(RatErrKind::ParseStringWrong, format!("{} is not a number", s)))
-                    } else {
-                        Ok(Rat::from(f))
-                    }
-                },
+                Ok(_) => Self::from_decimal(s),
                 Err(e) => {
                     Err(RatError::new(RatErrKind::ParseStringWrong, e))
                 }
-- 
2.43.0


From 4b94e622e6f5848b3075471c2732a913863ef6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 29/54] fix: Rat built from a NaN denominator was an ordinary
 number

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 2802b48..28ecd98 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -56,7 +56,9 @@ impl Rat {
     }
     
     pub fn from_frac_bigint(numerator: &BigInt, denominator: &BigInt) -> Result<Rat, RatError> {
-        if denominator.nat == 0u32 {
+        if numerator.is_nan() || denominator.is_nan() {
+            Ok(Rat::nan())
+        } else if denominator.nat == 0u32 {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-- 
2.43.0


From 939c8b48cc13e261b9a2e961c59f07bf3adb6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 30/54] fix: Rat in-place operators with a NaN operand turned
 clones of the target into NaN

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 28ecd98..0ce0891 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -449,7 +449,7 @@ impl Rat {
     }
     
     fn clear(&mut self) {
-        self.a.nat.clear();
+        *self = Self::nan();
     }
     
     fn mul_denom(x: &Nat, y: &Nat) -> Nat {
-- 
2.43.0


From d309e29621498648ea95c3ebe0a018b729a0b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 31/54] fix: Float division extended the dividend at the wrong
 end

---
 src/bigint/float.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..bfbef55 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -549,9 +549,10 @@ impl Float {
         // compute adjusted x.mant such that we get enough result precision
         let d = n - (self.mant.as_vec().len() as isize) + (y.mant.as_vec().len() as isize);
         let xadj = if d > 0 {
-            let tmp = self.mant.deep_clone();
-            tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
-            tmp
+            // the extra words are the least significant ones
+            let mut tmp = vec![0u32; d as usize];
+            tmp.extend(self.mant.iter());
+            Nat::from(tmp)
         } else {
             self.mant.clone()
         };
-- 
2.43.0


From 70e5356ef7648baf3b7812eda6e19bb16ac23d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 32/54] fix: Float infinity divided by a finite value was NaN

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index bfbef55..60bb026 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -592,7 +592,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From c3970deff52050508b287c235e28832df7002a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 33/54] fix: Float sum and difference took precision and mode
 of the larger operand

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 60bb026..69ea1f0 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -998,6 +998,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
@@ -1080,6 +1082,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
-- 
2.43.0


From 5a21a6b21f98457477b1d97e4473e7aa080a3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 34/54] fix: Float from i64::MIN overflowed

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 69ea1f0..d5f2a26 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.unsigned_abs())
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From cc6e68c569489595ca53b7bdd6d1893eb5e1ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 35/54] fix: Float difference of zero or a finite value and an
 infinity kept the sign of the subtrahend

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index d5f2a26..e0bdbcc 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1112,7 +1112,7 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            self.set_float(&-y.clone());
         }
     }
     
-- 
2.43.0


From 8ebf219d2af5dc7cd49166f5278acf7636bf111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 36/54] fix: Float sum of zeros with opposite signs kept the
 first sign

---
 src/bigint/float.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index e0bdbcc..1775683 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1017,6 +1017,13 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // zeros of opposite signs give +0, or -0 when rounding to -Inf
+            if self.neg != y.neg {
+                self.neg = BISign::from(self.mode == ToNegativeInf);
+            }
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
-- 
2.43.0


From 41ac326150d74f534cda448e6cb53364f5146846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 37/54] fix: Float difference of equal zeros ignored rounding
 to negative infinity

---
 src/bigint/float.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 1775683..7af00b0 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1111,8 +1111,10 @@ impl Float {
             // ±0 - ±0
             self.acc = Accuracy::Exact;
             self.form = Form::Zero;
-            // -0 - +0 == -0
-            self.neg = BISign::from(self.neg == Negative && y.neg != Negative);
+            // -0 - +0 == -0, zeros of equal signs give +0, or -0 when rounding to -Inf
+            if self.neg == y.neg {
+                self.neg = BISign::from(self.mode == ToNegativeInf);
+            }
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
-- 
2.43.0


From 57f62bc6b97c4cf5a6b6c2167a2f74f7fe365848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 38/54] fix: Float adding or subtracting zero in place kept a
 stale accuracy

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 7af00b0..5b2f640 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1027,6 +1027,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
@@ -1118,6 +1119,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From a100fcdbafb02afed95f63b58e520780f6fea9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 39/54] fix: Float from a rational ignored the precision of the
 denominator

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 5b2f640..3541da5 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -529,6 +529,8 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.prec = self.prec;
+                a.mode = self.mode;
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From c530565ee24f72ac9c2c15048f5d7db795734036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 40/54] fix: Float just above half the smallest subnormal
 became the smallest normal float

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 3541da5..52e7352 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -742,9 +742,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -853,9 +853,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From c1c5e8123f9111ec31e977810f054d5e85645f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 41/54] fix: Float set_mant_exp with a handle to itself lost
 the mantissa

---
 src/bigint/float.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 52e7352..74e2bd4 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -245,8 +245,7 @@ impl Float {
         self.neg = mant.neg;
         self.prec = mant.prec;
         self.exp = mant.exp;
-        self.mant.clear();
-        self.mant.as_mut_vec().extend(mant.mant.iter());
+        self.mant = mant.mant.deep_clone();
         
         if self.form.is_finite() {
             self.set_exp_and_round(self.exp.saturating_add(exp), 0);
-- 
2.43.0


From ddc03f50e677c17550c70869d3a9c767427142d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 42/54] fix: Float text lost a digit for every zero inside the
 number

---
 src/bigint/decimal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/decimal.rs b/src/bigint/decimal.rs
index df6cd12..982ce6b 100644
--- a/src/bigint/decimal.rs
+++ b/src/bigint/decimal.rs
@@ -53,6 +53,8 @@ impl Decimal {
             for c in s.chars().rev() {
                 if c == '0' {
                     n -= 1;
+                } else {
+                    break;
                 }
             }
             s.chars().take(n).for_each(|c| {z.mant.push(c);});
-- 
2.43.0


From 5e94460441bd33620437d99818cde3ffc6307cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 43/54] fix: Float fixed-point text was first rounded to the
 number of fraction digits

---
 src/bigint/float_fmt.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 8909785..49efd32 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -40,7 +40,6 @@ impl Float {
         }
         
         let mut decimal = Decimal::new(&self.mant, self.exp - (self.mant.bits_len() as isize));
-        decimal.round(1 + prec);
         match fmt_char {
             'e' | 'E' => {
                 decimal.round( 1 + prec);
-- 
2.43.0


From e07a8e0f7ce235156b7a34c1d36159134cf860d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 44/54] fix: Float fixed-point text of values below 0.1
 panicked

---
 src/bigint/float_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 49efd32..23e6104 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -101,7 +101,10 @@ impl Float {
         
         if prec > 0 {
             buf.push('.');
-            (0..prec).for_each(|i| {buf.push(d[(d.exp as usize) + i]);});
+            (0..(prec as isize)).for_each(|i| {
+                let idx = d.exp + i;
+                buf.push(if idx < 0 {d.zero} else {d[idx as usize]});
+            });
         }
     }
 }
-- 
2.43.0


From 4b76fc617d32eb9389587cfdc53ed92d18ce1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 45/54] fix: Float rejected text with a nonnegative decimal
 exponent

---
 src/bigint/float_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 23e6104..16796f3 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -227,8 +227,8 @@ impl FromStr for Float {
             }
         };
         
+        buf_de.push('1');
         if exp < 0 {
-            buf_de.push('1');
             buf_de.push_str("0".repeat((-exp) as usize).as_str());
         } else {
             buf_nu.push_str("0".repeat(exp as usize).as_str());
-- 
2.43.0


From 43499d633b944ca0a8c3549be6a281d9a6114acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 46/54] fix: Float rejected decimal text with leading zeros,
 such as 0.5 and 1.5e02

---
 src/bigint/float_fmt.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 16796f3..9e3d8d5 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -187,7 +187,13 @@ impl FromStr for Float {
                 if es.is_empty() {
                     (s, 0)
                 } else {
-                    let e = match BigInt::from_str(es) {
+                    let is_neg = es.starts_with('-');
+                    let es = es[(is_neg as usize)..].trim_start_matches(|c| c == '+' || c == ' ');
+                    let es = match es.trim_start_matches('0') {
+                        "" if !es.is_empty() => "0",
+                        digits => digits,
+                    };
+                    let e = match BigInt::from_str(es).map(|e| if is_neg {-e} else {e}) {
                         Ok(x) => x,
                         Err(e) => {return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));},
                     };
@@ -215,17 +221,25 @@ impl FromStr for Float {
         };
         
         let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::with_capacity(s.len()));
-        let exp = match dot_idx {
+        let digits = if s.starts_with('-') {
+            buf_nu.push('-');
+            &s[1..]
+        } else {
+            s
+        }.trim_start_matches(|c| c == '+' || c == ' ');
+        // an integer is not written with leading zeros
+        let (exp, digits) = match digits.find('.') {
             Some(idx) => {
-                buf_nu.push_str(&s[..idx]);
-                buf_nu.push_str(&s[(idx+1)..]);
-                exp - (s.len() - idx - 1) as isize
+                (exp - (digits.len() - idx - 1) as isize, format!("{}{}", &digits[..idx], &digits[(idx+1)..]))
             },
             None => {
-                buf_nu.push_str(s);
-                exp
+                (exp, digits.to_string())
             }
         };
+        match digits.trim_start_matches('0') {
+            "" if !digits.is_empty() => { return Ok(Float::from(BigInt::from(0u32))); },
+            significant => { buf_nu.push_str(significant); },
+        }
         
         buf_de.push('1');
         if exp < 0 {
-- 
2.43.0


From 5affa27ef182943e37a9295c5e77b41cf894d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 47/54] fix: Float accepted malformed text such as .-5, e5 and
 1.5e0x1

---
 src/bigint/float_fmt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 9e3d8d5..b634a38 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -188,7 +188,10 @@ impl FromStr for Float {
                     (s, 0)
                 } else {
                     let is_neg = es.starts_with('-');
-                    let es = es[(is_neg as usize)..].trim_start_matches(|c| c == '+' || c == ' ');
+                    let es = if is_neg || es.starts_with('+') {&es[1..]} else {es};
+                    if !es.bytes().all(|b| b.is_ascii_digit()) {
+                        return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid exponent"));
+                    }
                     let es = match es.trim_start_matches('0') {
                         "" if !es.is_empty() => "0",
                         digits => digits,
@@ -236,6 +239,9 @@ impl FromStr for Float {
                 (exp, digits.to_string())
             }
         };
+        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));
+        }
         match digits.trim_start_matches('0') {
             "" if !digits.is_empty() => { return Ok(Float::from(BigInt::from(0u32))); },
             significant => { buf_nu.push_str(significant); },
-- 
2.43.0


From 9ac084dcca630806ab81c5bbe032e1245dfeae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 48/54] fix: Float took the digit e of hexadecimal integers for
 an exponent

---
 src/bigint/float_fmt.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index b634a38..22ceb8f 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -161,6 +161,11 @@ impl FromStr for Float {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, "empty string"));
         }
         
+        // the digits of a hexadecimal integer may contain e and E
+        if let Ok(n) = BigInt::from_str(s) {
+            return Ok(Float::from(n));
+        }
+        
         let (dot_idx, se_idx, ue_idx) = (s.find('.'), s.find('e'), s.find('E'));
         
         let e_idx = if se_idx.is_some() && ue_idx.is_some() {
-- 
2.43.0


From 82934ba923aca646ff8619ee33060cf0a18a1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 49/54] fix: linear congruential products wrapped before being
 reduced modulo m

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From 5e01a1a42c4537b3170d670ccb9cf5aa2cf102f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 50/54] fix: Mersenne Twister tempering shifted s and t to the
 wrong side

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From bfff99ab4ef9be560cea2deb7c9eed410c361a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 51/54] fix: Mersenne Twister rejected l = 0, which its
 documentation allows

---
 src/rand/mersenne_twister_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 3126059..5ca8a9a 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -46,7 +46,7 @@ impl<T> MersenneTwisterRand<T>
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
             u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || l == T::default() || f == T::default() {
+            t_c == (T::default(), T::default()) || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From a58b044fbba0062d55ec4765bbc4731997e66d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 52/54] fix: Mersenne Twister accepted a zero tempering shift
 or mask

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 5ca8a9a..2386161 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -45,8 +45,8 @@ impl<T> MersenneTwisterRand<T>
     pub fn new<Sd: Seed<T>>(sd: &Sd, w: T, n: T, m: T, r: T, a: T,
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
-            u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || f == T::default() {
+            u_d.0 == T::default() || u_d.1 == T::default() || s_b.0 == T::default() || s_b.1 == T::default() ||
+            t_c.0 == T::default() || t_c.1 == T::default() || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From d7f6da372c47a7bc4d3231efe4d8b9fe66e7048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 53/54] fix: lagged Fibonacci overflowed adding the carry to a
 full word

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..6f61578 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if self.state[ps] >= self.state[idx] && (self.state[ps] - self.state[idx]) >= self.carry {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From 570b160f13ca656dc23844e1b2a192d89b229c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 54/54] fix: Display and Debug of Float honour the precision
 given in the format

---
 src/bigint/float_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 22ceb8f..f160c69 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -132,7 +132,7 @@ impl UpperExp for Float {
 
 impl Display for Float {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        let prec = self.prec;
+        let prec = if let Some(p) = f.precision() {p} else {self.prec};
         let mut s = String::with_capacity(self.mant.bits_len() >> 3);
         
         self.fmt_inner(&mut s, prec, 'f');
@@ -143,7 +143,7 @@ impl Display for Float {
 
 impl Debug for Float {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        let prec = self.prec;
+        let prec = if let Some(p) = f.precision() {p} else {self.prec};
         let mut s = String::with_capacity(self.mant.bits_len() >> 3);
 
         self.fmt_inner(&mut s, prec, 'f');
-- 
2.43.0

