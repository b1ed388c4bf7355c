From 541f1c99d8caf29e01ec6376a1004c25cc79b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 01/10] fix: report failure if the error locator is shorter
 than its register

A locator whose degree is below the length of the shift register has fewer
roots than the register has errors, so the word cannot be corrected. Trimming
the locator made the decoders report success and leave an invalid word.
---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..dfce1f4 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -207,9 +207,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 5430dcacca334a63eb188bc36f08ca58ed708285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 02/10] fix: do not leave out a solvable quadratic in the
 location finder

Whether x*x+x can be equal to the element with all bits set depends on its
trace. With fields where it can, for example those of 0x1100b and 0x1002d,
some patterns of two errors were reported to be uncorrectable.
---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index dfce1f4..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 170471f3a06e9ab967ee42a6b01c18b40e3537f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 03/10] fix: let OSD tell ties between unlikely candidates

The second best metric started above what candidates can have, so a tie could
be reported as success and a lone candidate as a tie.
---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..870108a 100644
--- a/osd.hh
+++ b/osd.hh
@@ -191,7 +191,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = -128 * N;
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
-- 
2.43.0


From fcdd68435d7830a241629ff77f839be136255d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 04/10] fix: let the OSD list take candidates with negative
 metric

Otherwise rows of the list were never written and words that are not part of
the code came out of it.
---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index 870108a..81d8b32 100644
--- a/osd.hh
+++ b/osd.hh
@@ -352,7 +352,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = -128 * N;
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 163a60ab3a98b225eedaea16ae59c74d02689fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 05/10] fix: find the least reliable positions of short BCH
 codes

The list started out as if it already held the first position, so positions
more reliable than the first one never made it to the list and the number of
tested patterns was less than intended.
---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..2053802 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < std::min(k, L) && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From 88e04e5d1ce3b47240377b0d1c3cfc1aa0f19d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 06/10] fix: do not write in front of the message if the first
 bit is parity

With nothing decoded yet there is nothing to permute.
---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..2a3e771 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -135,8 +135,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From 5396b0d8771f4806f90714f837aff71ddf7f4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 07/10] fix: start every LDPC word with the same write masks

The masks choosing which of several links to the same column may write are
rotated while decoding and were left as they happened to be at the end of a
word, so the result depended on the words decoded before.
---
 ldpc_decoder.hh | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..f162c74 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -73,6 +73,22 @@ class LDPCDecoder
 		return vreinterpret<TYPE>(vand(vmask(b), vorr(vceqz(a), veor(vcgtz(a), vcltz(b)))));
 	}
 
+	void reset()
+	{
+		for (int i = 0; i < BNL; ++i)
+			bnl[i] = vzero<TYPE>();
+		Loc *lo = loc;
+		for (int i = 0; i < q; ++i) {
+			int cnt = cnc[i];
+			for (int j = 0; j < W; ++j) {
+				wd[W*i+j] = 0;
+				for (int c = 0; c < cnt-1; ++c)
+					if (lo[c].off == lo[c+1].off)
+						wd[W*i+j] |= 1 << c;
+				lo += cnt;
+			}
+		}
+	}
 	bool bad()
 	{
 		Loc *lo = loc;
@@ -248,10 +264,6 @@ public:
 					shift[c] = (shift[c] + 1) % M;
 				}
 				std::sort(lo, lo + cnt, [](const Loc &a, const Loc &b){ return a.off < b.off; });
-				wd[W*i+j] = 0;
-				for (int c = 0; c < cnt-1; ++c)
-					if (lo[c].off == lo[c+1].off)
-						wd[W*i+j] |= 1 << c;
 				lo += cnt;
 			}
 		}
@@ -260,8 +272,7 @@ public:
 	}
 	int operator()(int8_t *message, int8_t *parity, int trials = 25)
 	{
-		for (int i = 0; i < BNL; ++i)
-			bnl[i] = vzero<TYPE>();
+		reset();
 		for (int i = 0; i < K/M; ++i)
 			for (int j = 0; j < W; ++j)
 				for (int n = 0; n < D; ++n)
-- 
2.43.0


From c832d0acdcb5cf634c83272a48e099fdf9d25190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 08/10] fix: LDPC write disable masks must rotate within one
 repeated column only

When a repeated column was followed by the check node's last link, that
link was taken into the group. Two of the repeated links then wrote back in
the same update and one contribution got lost while its message was kept,
which turned erased bits into wrong ones.
---
 ldpc_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index f162c74..61ed200 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -208,7 +208,7 @@ class LDPCDecoder
 					for (int first = 0, c = 1; c < cnt; ++c) {
 						if (lo[first].off != lo[c].off || c == cnt-1) {
 							int last = c - 1;
-							if (c == cnt-1)
+							if (lo[first].off == lo[c].off)
 								++last;
 							if (last != first) {
 								int count = last - first + 1;
-- 
2.43.0


From f8a5531917129fc53825c7a4090c4a2be0ae7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 09/10] fix: clamp 64 bit integers with instructions AVX2 has

---
 avx2.hh        | 4 +++-
 avx2_double.hh | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..1658232 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,9 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i lo = _mm256_set1_epi64x(a), hi = _mm256_set1_epi64x(b);
+	tmp.m = _mm256_blendv_epi8(x.m, lo, _mm256_cmpgt_epi64(lo, x.m));
+	tmp.m = _mm256_blendv_epi8(tmp.m, hi, _mm256_cmpgt_epi64(tmp.m, hi));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..4cf20d5 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,11 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i lo = _mm256_set1_epi64x(a), hi = _mm256_set1_epi64x(b);
+	for (int i = 0; i < 2; ++i) {
+		tmp.m[i] = _mm256_blendv_epi8(x.m[i], lo, _mm256_cmpgt_epi64(lo, x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(tmp.m[i], hi, _mm256_cmpgt_epi64(tmp.m[i], hi));
+	}
 	return tmp;
 }
 
-- 
2.43.0


From 362df090fe82e6f6366560438cc43b2d1008ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 10/10] fix: polar list decoders took missing paths for better
 than real ones once metrics passed 1000000

---
 polar_list_decoder.hh | 3 ++-
 polar_parity_aided.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 07a1cb1..d78b93b 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -289,7 +290,7 @@ public:
 		int count = 0;
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index 2a3e771..d4979a7 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -6,6 +6,7 @@ Copyright 2023 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -114,9 +115,9 @@ struct PolarParityNode<TYPE, 0>
 			*parity = PH::one();
 			for (int k = 0; k < TYPE::SIZE; ++k)
 				if (chk.v[k] < 0)
-					fork[2*k] = 1000000;
+					fork[2*k] = std::numeric_limits<PATH>::max() / 2;
 				else
-					fork[2*k+1] = 1000000;
+					fork[2*k+1] = std::numeric_limits<PATH>::max() / 2;
 		}
 		int perm[2*TYPE::SIZE];
 		CODE::insertion_sort(perm, fork, 2*TYPE::SIZE);
@@ -356,7 +357,7 @@ public:
 		PATH metric[TYPE::SIZE];
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
-- 
2.43.0

