From d2fc77ab61223385b26b30aabcca34138376a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 1/3] fix: toward-zero correct rounding search stopped one step
 short on exact hits

When the displacement equals the remaining width exactly, the left-closed
directed search compared fractional parts but returned without applying the
step, and it compared the parity of the wrong integer (zi - (deltai - r)
instead of zi - deltai).
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..96676e5 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2090,9 +2090,9 @@ namespace jkj {
 					IntervalTypeProvider::tag ==
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
+					auto const approx_x = zi - deltai;
 					// We already know r is at most deltai
 					deltai -= std::uint32_t(r);
-					auto const approx_x = zi - deltai;
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2133,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From 39b9c6cb2bafa53638a5a672f9119c46a477232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 2/3] fix: floor_log2_pow10 overflowed int32 for 617 <= |e| <=
 642

The documented (and asserted) range is [-642,642], but the 32-bit product
overflows from |e| = 617 on: undefined behaviour at run time, ill-formed in a
constant expression, and a wrong value where it wraps. Use a 64-bit product.
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 96676e5..a50adb6 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0


From 485ad86fb543e359ca7e958dd880ad7c772678c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 3/3] fix: integrality test ran on an overflowed right endpoint
 (f = 0) for left-closed directed rounding

---
 grisu_exact.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grisu_exact.h b/grisu_exact.h
index a50adb6..8892631 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2479,6 +2479,12 @@ namespace jkj {
 				}
 				// Case IV or V or VI: f = fc or fc +- 2^(q-p-1)
 				else {
+					// Take care of the case when f = fc + 2^(q-p-1) overflowed;
+					// f is actually 2^q in that case
+					if (f == 0) {
+						return minus_k <= 0 && minus_k - exponent <= int(extended_precision);
+					}
+
 					constexpr auto exp_2_upper_bound =
 						case_id == integer_check_case_id::two_times_fc ?
 						integer_check_exponent_lower_bound_for_q_mp :
-- 
2.43.0

