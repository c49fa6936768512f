From b1263de0180a050e92840b622030f8c52ac12b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 1/2] fix: median of medians on 11 elements fails its own debug
 assertion

With 11 elements the number of ninthers is zero and the recursive call asks
for element 0 of an empty view, which its debug_assert! refuses.
---
 src/par/partition.rs | 5 ++++-
 src/partition.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..d961a44 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -303,7 +303,10 @@ fn median_of_ninthers<T, F: Fn(&T, &T) -> bool>(mut v: ArrayViewMut1<'_, T>, is_
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// For 11 elements there is no ninther whose median to find.
+	if frac > 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..432537e 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -267,7 +267,10 @@ fn median_of_ninthers<T, F: FnMut(&T, &T) -> bool>(
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// For 11 elements there is no ninther whose median to find.
+	if frac > 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
-- 
2.43.0


From 319d8fc5bfdc9a7ad2e3f41521913cdecd6678ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:22 +0000
Subject: [PATCH 2/2] fix: median of medians takes quadratic time when many
 elements equal its pivots

---
 src/par/partition.rs | 7 +++++++
 src/partition.rs     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index d961a44..8195bfa 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -264,6 +264,13 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
+				// The elements equal to the pivot are still behind it. Gather them next to the pivot,
+				// otherwise many of them would leave only the pivot itself to be discarded.
+				let p = p + partition_equal(v.slice_mut(s![p..]), 0, is_less) - 1;
+				if p >= k {
+					return;
+				}
+
 				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
 				// a valid index into the slice.
 				let (_left, right) = v.split_at(Axis(0), p + 1);
diff --git a/src/partition.rs b/src/partition.rs
index 432537e..8c3b987 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -225,6 +225,13 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
+				// The elements equal to the pivot are still behind it. Gather them next to the pivot,
+				// otherwise many of them would leave only the pivot itself to be discarded.
+				let p = p + partition_equal(v.slice_mut(s![p..]), 0, is_less) - 1;
+				if p >= k {
+					return;
+				}
+
 				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
 				// a valid index into the slice.
 				let (_left, right) = v.split_at(Axis(0), p + 1);
-- 
2.43.0

