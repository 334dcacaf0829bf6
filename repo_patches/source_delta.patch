From 5f1b57cd65d8a0c98576cdc4ef8f2914fc183e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 01/16] fix: strict magnitude comparisons stop at the first
 differing digit

abs_val_is_gt/abs_val_is_lt kept scanning towards the low digits after a
high digit had already decided the comparison, so 15 > 23 (base 10) was true.
---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From b905cb3a245d371f6907e8da15d9b6cfe87b6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 02/16] fix: compare two equal negative numbers correctly

>, >= and <= used the wrong strictness when both operands are negative:
-3 > -3 was true, -3 >= -3 and -3 <= -3 were false.
---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From 3f3f5c99ac68dcacc440b1e409ddf6cd6a755a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 03/16] fix: do not read or write past the end when subtracting
 zero from zero

abs_val_sub accessed digit 0 of an empty container: Bignum{} - Bignum{} crashed.
---
 include/bignum/impl/bn_subtraction_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..dd337d3 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -23,6 +23,11 @@ void abs_val_sub(
         }
     #endif
 
+    // zero has no digits: there is nothing to subtract from (or to borrow)
+    if (largerNum.empty()) {
+        return;
+    }
+
     typedef typename limits_t::base_single bn_single;
     typedef typename limits_t::base_double bn_double;
     
-- 
2.43.0


From 2967c05157faccad810bc1ec1d831af5cec720b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 04/16] fix: zero plus zero has no digits

abs_val_add appended a most significant zero digit when both operands were
empty, so 0 + 0 == 0 was false.
---
 include/bignum/impl/bn_addition_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_addition_impl.h b/include/bignum/impl/bn_addition_impl.h
index 3817928..93db79a 100644
--- a/include/bignum/impl/bn_addition_impl.h
+++ b/include/bignum/impl/bn_addition_impl.h
@@ -9,6 +9,11 @@ void abs_val_add(
     container_t& outNum,
     const container_t& inNum
 ) {
+    // zero has no digits, adding it must not append any
+    if (inNum.empty()) {
+        return;
+    }
+
     typedef typename limits_t::base_single bn_single;
     typedef typename limits_t::base_double bn_double;
     
-- 
2.43.0


From 4e2706d0530ecac846b226c162364d320a79f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 05/16] fix: subtracting numbers of opposite signs adds their
 magnitudes

5 - (-3) returned 2 and -5 - 3 returned -2 (or 0 when the right operand was
the larger one).
---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From f42c8980060083de8f4276ad2542d2c97bd40a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 06/16] fix: zero is never negative

-5 + 5, -5 - -5, -5 * 0 and Bignum{BN_NEG, {0}} produced a "negative zero"
which is different from, and less than, the zero returned by 5 + -5.
---
 include/bignum/impl/bn_type_impl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..19f36d9 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -62,10 +62,6 @@ Bignum<limits_t, container_t>::Bignum(
     descriptor{desc},
     numData{}
 {
-    if (!numList.size()) {
-       return;
-    }
-
     typename container_t::size_type leadingZeroes = 0;
 
     // count all of the digits, minus starting "zeroes"
@@ -91,6 +87,11 @@ Bignum<limits_t, container_t>::Bignum(
 
         numData[--outIter] = val;
     }
+
+    // zero has no sign
+    if (numData.empty() && descriptor == BN_NEG) {
+        descriptor = BN_POS;
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -488,6 +489,7 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
+                descriptor = numData.empty() ? BN_POS : BN_NEG;
                 return *this;
             }
             else {
@@ -559,6 +561,7 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
+                descriptor = numData.empty() ? BN_POS : BN_NEG;
             }
             else {
                 Bignum tempNum = num;
@@ -613,6 +616,12 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
     // std::deque throws exceptions when a memory error occurs
     try {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
+
+        // zero has no sign
+        if (ret.numData.empty()) {
+            ret.descriptor = BN_POS;
+        }
+
         *this = std::move(ret);
     }
     catch(const std::exception& e) {
-- 
2.43.0


From bd71435b782e4963c4ca329f502f354910a6cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 07/16] fix: double full-width digits without losing the carry
 in division

abs_val_div doubled digits in the single-precision type. For bignum_lowp,
bignum_medp and bignum_highp the carry was lost, and the base itself became
0 in that type: every division died of a modulo by zero.
---
 include/bignum/impl/bn_division_impl.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..3203009 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -29,10 +29,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_double temp = ((bn_double)container[curr] * (bn_double)2) + carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 342954923efb0f8a6844b061ce3ad739afcfd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 08/16] fix: quotients of one and zero, and division by zero

- x / x returned 0 instead of 1
- a quotient of zero was stored as the digit {0} (which is not equal to zero
  as the constructor makes it), and could be negative
- dividing by a zero without digits, as the constructor makes it, never ended
---
 include/bignum/impl/bn_type_impl.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 19f36d9..885a758 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -666,19 +666,21 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (num.numData.empty() || (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
         return *this;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
+    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
     {
+        numData.clear();
+        descriptor = BN_POS;
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
         return *this;
     }
@@ -689,9 +691,14 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
-            numData = {bn_single{0}};
+            numData.clear();
+            descriptor = BN_POS;
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From 9b79b5efef3ba33d4a5071c5dc9ca92aa48f978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 09/16] fix: keep the carries of the naive multiplication

mul_naive accumulated products in the single-precision digit type, so that
full-width digits (lowp, medp, highp) lost their carries, and left zeroes in
the most significant digits.
---
 include/bignum/impl/bn_multiplication_impl.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..5de5109 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -69,6 +69,7 @@ template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
     typedef typename limits_t::base_double bn_double;
     typedef typename container_t::size_type big_size_type;
+    typedef typename limits_t::base_single bn_single;
     static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
     
     container_t ret{};
@@ -81,17 +82,22 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_double remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_double digit = (bn_double)a[j] * (bn_double)b[i] + (bn_double)ret[index] + remainder;
+            ret[index] = (bn_single)(digit % NUM_BASE);
+            remainder = digit / NUM_BASE;
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
+    }
+    
+    // trim trailing zeroes from the most-significant digits
+    while (!ret.empty() && ret.back() == (bn_single)0) {
+        ret.pop_back();
     }
     
     return ret;
-- 
2.43.0


From fd1ac89028173817954017aea49989ce9937b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 10/16] fix: use the FFT multiplication only where it is exact

- the sums of digit products were truncated to the (narrow) digit type: base 2
  products of 256 or more digits and most lowp and medp products were wrong
- highp digit products do not even fit in a double: multiply these, and operands
  too long for the FFT to be exact, with mul_naive
- multiplying zero by zero overflowed the stack (FFT of nothing)
---
 include/bignum/impl/bn_multiplication_impl.h | 22 ++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 5de5109..9780e24 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,23 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+1;
+    
+    // a product of zero has no digits (and an FFT can't be empty)
+    if (a.empty() || b.empty()) {
+        return container_t{};
+    }
+    
+    // The sums of digit products which come out of the FFT must be small enough
+    // for floating point numbers to hold and to round them exactly.
+    static constexpr bn_u64_t MAX_FFT_SUM = (bn_u64_t)1 << 31;
+    static constexpr bn_u64_t MAX_DIGIT_PRODUCT = (bn_u64_t)limits_t::SINGLE_BASE_MAX * (bn_u64_t)limits_t::SINGLE_BASE_MAX;
+    
+    if ((a.size() < b.size() ? a.size() : b.size()) > MAX_FFT_SUM / MAX_DIGIT_PRODUCT) {
+        return mul_naive<limits_t, container_t>(a, b);
+    }
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -36,9 +50,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = (bn_u64_t)(c + std::floor(x + 0.5));
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
-- 
2.43.0


From baa752a9e6d7e171e7c702b2a71869b34e763917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 11/16] fix: nextPow2 of numbers above 2^32

The bits were only smeared over 32 positions, nextPow2(2^33+1) was not a power
of two.
---
 include/bignum/impl/fourier_impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..f259ea0 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -27,11 +27,9 @@ num_t nextPow2(num_t n) {
     }
 
     --n;
-    n |= n >> 1;
-    n |= n >> 2;
-    n |= n >> 4;
-    n |= n >> 8;
-    n |= n >> 16;
+    for (unsigned shift = 1; shift < sizeof(num_t) * 8; shift *= 2) {
+        n |= n >> shift;
+    }
     return ++n;
 }
 
-- 
2.43.0


From 5738e745005111d1ec739e58d2a36d64c406c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 12/16] fix: rethrow the original exception

"throw e" threw a sliced std::exception copy: callers could not catch the
std::bad_alloc which made an operation fail.
---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 885a758..230518b 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -505,13 +505,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -571,13 +571,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -624,13 +624,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     return *this;
@@ -701,13 +701,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From 7f10434bfcfd37a809fc9a3e503b3e6cc43bcb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 13/16] fix: print 8-bit digits as numbers

Digits of bignum_base2 and bignum_lowp were written as raw characters.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 230518b..b65ed60 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << (bn_u64_t)numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From 8e4915efd31c6682ba5d2c7eea53999c83f27f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 14/16] fix: arithmetic with infinite and NaN operands

+=, -=, *= and /= replaced an infinite or NaN left operand by a finite zero
with the sign of the right operand (INF + 5 was 0), and ignored an infinite or
NaN right operand (5 + INF was 5).
---
 include/bignum/impl/bn_type_impl.h | 46 ++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index b65ed60..195b8fb 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -455,9 +455,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isComputable(descriptor)) {
+            descriptor = num.descriptor;
+        }
+        else if (!isComputable(num.descriptor) && descriptor != num.descriptor) {
+            descriptor = BN_NAN;
+        }
+
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -525,9 +531,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || descriptor == num.descriptor) {
+            descriptor = BN_NAN;
+        }
+        else if (isComputable(descriptor)) {
+            descriptor = num.isPositive() ? BN_NEG_INF : BN_POS_INF;
+        }
+
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -591,9 +603,18 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        const bool hasZero = (isComputable(descriptor) && numData.empty())
+            || (isComputable(num.descriptor) && num.numData.empty());
+
+        if (isNan() || num.isNan() || hasZero) {
+            descriptor = BN_NAN;
+        }
+        else {
+            descriptor = (isPositive() == num.isPositive()) ? BN_POS_INF : BN_NEG_INF;
+        }
+
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
@@ -644,9 +665,18 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            descriptor = BN_NAN;
+        }
+        else if (isInfinite()) {
+            descriptor = (isPositive() == num.isPositive()) ? BN_POS_INF : BN_NEG_INF;
+        }
+        else {
+            descriptor = BN_POS;
+        }
+
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
-- 
2.43.0


From d5aa69046f149b9b206cca2b4409cb342db72e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 15/16] fix: order infinite and NaN numbers

Infinite numbers have no digits and were compared as if they were zero: +INF > 5
was false and -INF < -5 was false. Comparisons with NaN could be true.
---
 include/bignum/impl/bn_type_impl.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 195b8fb..f19f800 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -307,6 +307,14 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    // NaN is unordered, infinities lie beyond all finite numbers
+    if (isNan() || num.isNan()) {
+        return false;
+    }
+    else if (isInfinite() || num.isInfinite()) {
+        return descriptor != num.descriptor && (descriptor == BN_POS_INF || num.descriptor == BN_NEG_INF);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -326,6 +334,14 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    // NaN is unordered, infinities lie beyond all finite numbers
+    if (isNan() || num.isNan()) {
+        return false;
+    }
+    else if (isInfinite() || num.isInfinite()) {
+        return descriptor == BN_POS_INF || num.descriptor == BN_NEG_INF;
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -345,6 +361,14 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    // NaN is unordered, infinities lie beyond all finite numbers
+    if (isNan() || num.isNan()) {
+        return false;
+    }
+    else if (isInfinite() || num.isInfinite()) {
+        return descriptor != num.descriptor && (descriptor == BN_NEG_INF || num.descriptor == BN_POS_INF);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
@@ -364,6 +388,14 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    // NaN is unordered, infinities lie beyond all finite numbers
+    if (isNan() || num.isNan()) {
+        return false;
+    }
+    else if (isInfinite() || num.isInfinite()) {
+        return descriptor == BN_NEG_INF || num.descriptor == BN_POS_INF;
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
-- 
2.43.0


From 25828cc490a872bc04114a87027b88956888bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:04 +0000
Subject: [PATCH 16/16] fix: divide numbers with leading zeroes

A zero pushed onto the most significant end of a number (as the compression
test does) made abs_val_div subtract a larger number from a smaller one, and
the quotient was garbage.
---
 include/bignum/impl/bn_type_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index f19f800..45cb5bf 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -714,6 +714,11 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
     
+    // zeroes pushed onto the most significant end don't count as digits
+    while (!numData.empty() && numData.back() == (bn_single)SINGLE_BASE_MIN) {
+        numData.pop_back();
+    }
+    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
-- 
2.43.0

