From 5a3199cc1cff8461f159ec395ee8629f7d09d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 01/59] fix: theta MaxSerializedSizeBytes overflowed uint8

---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0


From 1a226a653a2649b454ee95239adc4af0b8395fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 02/59] fix: tuple set operations shared summaries with their
 inputs and results

---
 tuple/arrayofnumbers_intersection.go |  2 +-
 tuple/arrayofnumbers_union.go        | 12 +++++++++---
 tuple/compact_sketch.go              |  2 +-
 tuple/intersection.go                |  2 +-
 tuple/union.go                       | 12 +++++++++---
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..56f3f0e 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]), // later merges must not reach the input
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..12f176f 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]), // later merges must not reach the input
 					})
 					continue
 				}
@@ -153,13 +153,19 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	}
diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..f3658fd 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -105,7 +105,7 @@ func NewCompactSketchFromThetaSketch[S Summary](
 	for hash := range sketch.All() {
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: summary.Clone().(S),
 		})
 	}
 
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..24cf418 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S), // later merges must not reach the input
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..813cb86 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S), // later merges must not reach the input
 					})
 					continue
 				}
@@ -245,13 +245,19 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	}
-- 
2.43.0


From 3ac2fa95ecf0139596da4b093736dab22cf80525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 03/59] fix: hll: let the HLL_4 exception table grow to the
 number of buckets

findAuxHashMap refused tables of 2^lgConfigK entries, so a small sketch
with more than 3/8 of its buckets holding exceptional values failed its
updates (and HLL_6/HLL_8 sketches failed to convert).
---
 hll/aux_hash_map.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..aacbe1b 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -195,9 +195,6 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
-	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
 	probe := slotNo & auxArrMask
-- 
2.43.0


From c190c1015d61988f0459fdf54e61d9c124bdca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 04/59] fix: hll: decoded sketches aliased the caller's byte
 slice

NewHllSketchFromSlice promises that the slice is neither modified nor
retained, but register-mode sketches kept a sub-slice of it.
---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..8666a28 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From c1c132710bf38107bc6cafa2701f525c61d714f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 05/59] fix: hll: union estimates and bounds ignored merges not
 yet folded into the registers' sums

GetEstimate, GetCompositeEstimate, GetLowerBound and GetUpperBound read
KxQ and numAtCurMin without the rebuild a register merge asks for, so they
described the union before the merge.
---
 hll/union.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..affa31d 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
-- 
2.43.0


From e05b10438a94a92eaf9d3dc84677a7101dc1729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 06/59] fix: hll: union merges of sketches with different lgK

Merging a register-mode sketch with a smaller lgK than the union's wrote
its registers into the first slots only, and one with a larger lgK failed
with "not implemented". Downsample the union to the smaller lgK, or fold
the source, as the other language implementations do.
---
 hll/union.go | 67 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index affa31d..15fe60b 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -254,7 +254,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -282,7 +282,12 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		// case 16: src >  max, src >= gdt, gdtList, gdtHeap
 		// case 18: src >  max, src >= gdt, gdtSet,  gdtHeap
 		{ //Action: downsample src to MaxLgK, reverse merge w/autofold, ooof=src
-			return nil, fmt.Errorf("not implemented cas 16,18")
+			srcHll8, err := downsample(source, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			err = gadgetC.mergeTo(srcHll8)
+			return srcHll8.sketch, err
 		}
 	case 4, 20:
 		// case 4: src <= max, src >= gdt, gdtHLL, gdtHeap
@@ -298,7 +303,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			gdgtHll8, err := downsample(u.gadget, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, gdgtHll8, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			gdgtHll8.sketch.putOutOfOrder(true)
+			return gdgtHll8.sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -312,13 +326,42 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 22: //src >  max, src >= gdt, gdtEmpty, gdtHeap
 		{ //Action: downsample src to lgMaxK, replace gdt, ooof=src
-			return nil, fmt.Errorf("not implemented")
+			srcHll8, err := downsample(source, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			return srcHll8.sketch, nil
 		}
 	default:
 		return nil, fmt.Errorf("impossible")
 	}
 }
 
+// downsample returns a new HLL_8 sketch of the given, smaller lgK with the content of src,
+// which must be in HLL mode.
+func downsample(src HllSketch, tgtLgK int) (*hllSketchState, error) {
+	srcArr := src.(*hllSketchState).sketch.(hllArray)
+	tgtArr := newHll8Array(tgtLgK)
+	itr := srcArr.iterator()
+	for itr.nextAll() {
+		p, err := itr.getPair()
+		if err != nil {
+			return nil, err
+		}
+		if getPairValue(p) == empty {
+			continue
+		}
+		if _, err = tgtArr.couponUpdate(p); err != nil { //rebuilds KxQ, etc.
+			return nil, err
+		}
+	}
+	//both of these are required for isomorphism
+	tgtArr.putHipAccum(srcArr.getHipAccum())
+	tgtArr.putOutOfOrder(srcArr.isOutOfOrder())
+	tgtArr.putRebuildCurMinNumKxQFlag(false)
+	return newHllSketchState(tgtArr).(*hllSketchState), nil
+}
+
 func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	sketchImpl := sketch.(*hllSketchState).sketch
 	curMode := sketch.GetCurMode()
@@ -458,9 +501,19 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 				}
 			}
 		}
-		// TODO continue implementing
-	default:
-		return fmt.Errorf("not implemented")
+	default: //srcLgK > tgtLgK: fold the source slots
+		{
+			tgtArr := tgt.(*hllSketchState).sketch.(*hll8ArrayImpl)
+			tgtMask := 1<<tgtLgK - 1
+			itr := src.iterator()
+			for itr.nextAll() {
+				v, err := itr.getValue()
+				if err != nil {
+					return err
+				}
+				tgtArr.updateSlotNoKxQ(itr.getSlot()&tgtMask, v)
+			}
+		}
 	}
 	tgt.(*hllSketchState).sketch.putRebuildCurMinNumKxQFlag(true)
 	return nil
-- 
2.43.0


From 040a0b613bf935023fdd7b7612ec4be4e9f3d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 07/59] fix: hll: register sum lost its precision when rebuilt
 with values of 32 or more

The rebuild subtracted the replaced zero from the wrong accumulator, so the
tiny terms kept apart in kxq1 were absorbed, up to an infinite estimate.
---
 hll/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index 15fe60b..8a4de2b 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -394,7 +394,8 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 				if err != nil {
 					return err
 				}
-				kxq1 += inv - 1.0
+				kxq0 -= 1.0
+				kxq1 += inv
 			}
 		}
 		if v > curMin {
-- 
2.43.0


From 6efe48058af21b8d6e8a48ebd8bdcb10f2dee68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 08/59] fix: cpc: pair sort fallback left part of the range
 unsorted, failing serialization

---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..f163e50 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -213,7 +213,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From 600f8493d214c7f37736074840fc697ff0f5af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 09/59] fix: cpc: wrapper of an empty image reported preamble
 bytes as its estimate

---
 cpc/utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..2692c1b 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -331,7 +331,10 @@ func getKxP(mem []byte) float64 {
 }
 
 func getHipAccum(bytes []byte) float64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	if err != nil { // the empty formats do not store this field
+		return 0
+	}
 	return math.Float64frombits(binary.LittleEndian.Uint64(bytes[offset : offset+8]))
 }
 
@@ -354,7 +357,10 @@ func getFlags(bytes []byte) int {
 }
 
 func getNumCoupons(bytes []byte) uint64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	if err != nil { // the empty formats do not store this field
+		return 0
+	}
 	return uint64(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
-- 
2.43.0


From 0e160b6c12d6c76a4180bdc079f74634d4f53bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 10/59] fix: cpc: images of sketches with another hash seed
 were accepted

---
 cpc/cpc_sketch.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..7e0d307 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -96,6 +96,13 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	computedSeedHash, err := internal.ComputeSeedHash(int64(seed))
+	if err != nil {
+		return nil, err
+	}
+	if computedSeedHash != c.SeedHash {
+		return nil, fmt.Errorf("seed hash mismatch: computed %d != source %d", computedSeedHash, c.SeedHash)
+	}
 
 	sketch, err := NewCpcSketch(c.LgK, seed)
 	if err != nil {
-- 
2.43.0


From 040471e2dd55f092d39e00e9161a5aef7c5808e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 11/59] fix: kll: images with an empty string as minimum or
 maximum were corrupt

---
 kll/items_sketch.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..893ca1f 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -641,12 +641,8 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	// not SerializeOneToSlice: it writes no length for an empty string
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
-- 
2.43.0


From cd747a5f2c9efcfa8422a06e8d410057d646f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 12/59] fix: kll: GetPartitionBoundaries changed the answers of
 later queries

---
 kll/items_sketch_sorted_view.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..7642417 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,10 +182,14 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
-	s.cumWeights[0] = 1
-	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
-	s.quantiles[0] = s.minItem
-	s.quantiles[len(s.quantiles)-1] = s.maxItem
+	// adjust the ends of a copy: this view goes on answering other queries
+	adj := *s
+	adj.cumWeights = slices.Clone(s.cumWeights)
+	adj.quantiles = slices.Clone(s.quantiles)
+	adj.cumWeights[0] = 1
+	adj.cumWeights[len(adj.cumWeights)-1] = int64(s.totalN)
+	adj.quantiles[0] = s.minItem
+	adj.quantiles[len(adj.quantiles)-1] = s.maxItem
 
 	evSpNormRanks, err := evenlySpacedDoubles(0, 1.0, numEquallySized+1)
 	if err != nil {
@@ -193,13 +198,13 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	evSpQuantiles := make([]C, len(evSpNormRanks))
 	evSpNatRanks := make([]int64, len(evSpNormRanks))
 	for i := 0; i < len(evSpNormRanks); i++ {
-		index, err := s.getQuantileIndex(evSpNormRanks[i], inclusive)
+		index, err := adj.getQuantileIndex(evSpNormRanks[i], inclusive)
 		if err != nil {
 			return nil, err
 		}
 
-		evSpQuantiles[i] = s.quantiles[index]
-		evSpNatRanks[i] = s.cumWeights[index]
+		evSpQuantiles[i] = adj.quantiles[index]
+		evSpNatRanks[i] = adj.cumWeights[index]
 	}
 	return newItemsSketchPartitionBoundaries[C](s.totalN, evSpQuantiles, evSpNatRanks, evSpNormRanks, s.maxItem, s.minItem, inclusive)
 }
-- 
2.43.0


From aa117bd552ad14ee74a0b377e522e4237d83e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 13/59] fix: kll: Reset kept the error of sketches merged
 earlier

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 893ca1f..cc779e9 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From b846cc25bc0d50a374d1d57ac8ef2c3ac6f0b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 14/59] fix: kll: images of sketches with 59 or more levels
 wrapped their offsets

---
 kll/items_sketch.go          | 8 ++++----
 kll/items_sketch_validate.go | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index cc779e9..671cc31 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -155,7 +155,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -562,11 +562,11 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint64(bytesOut[8:16], n)
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
-	for i := uint8(0); i < numLevels; i++ {
+	for i := 0; i < int(numLevels); i++ {
 		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4:], minMaxByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..c470181 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -111,8 +111,8 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
 		// Get Levels Arr and add the last element
-		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
-		for i := uint8(0); i < vlid.numLevels; i++ {
+		vlid.levelsArr = make([]uint32, int(vlid.numLevels)+1)
+		for i := 0; i < int(vlid.numLevels); i++ {
 			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
-- 
2.43.0


From 33d49b3d5fbce1e0ad70c905dada0f35dbcd5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 15/59] fix: kll: level capacities overflowed for k of 32768
 and more

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 671cc31..c3e5e58 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1018,7 +1018,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 5b73d5d40e7f76a8453a6d44cf4a13fd4f709967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 16/59] fix: req: merging into a fresh sketch counted zero as
 its minimum and maximum

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..b53a983 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -74,6 +74,8 @@ func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 	}
 	for _, option := range options {
 		option(sk)
-- 
2.43.0


From 29d8446d9b6f684cf5f73c5eabffed970da09a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 17/59] fix: req: quantile bounds failed where the bound of the
 rank left [0,1]

---
 req/sketch.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index b53a983..a22cf20 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -379,7 +379,10 @@ func (s *Sketch) QuantileLowerBound(
 	if err != nil {
 		return 0, err
 	}
-	return s.Quantile(lb)
+	if rank < 0 || rank > 1 {
+		return s.Quantile(rank) // refuses the rank
+	}
+	return s.Quantile(max(lb, 0)) // the bound of a rank may lie below every rank
 }
 
 // RankLowerBound returns the approximate lower bound of a rank confidence interval
@@ -422,7 +425,10 @@ func (s *Sketch) QuantileUpperBound(
 	if err != nil {
 		return 0, err
 	}
-	return s.Quantile(ub)
+	if rank < 0 || rank > 1 {
+		return s.Quantile(rank) // refuses the rank
+	}
+	return s.Quantile(min(ub, 1)) // the bound of a rank may lie above every rank
 }
 
 // RankUpperBound returns the approximate upper bound of the rank confidence interval
-- 
2.43.0


From 1d930a251fcc1eabdce87d9d461a79c192f63767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 18/59] fix: tdigest: quantile interpolation weighted the two
 centroids the wrong way round

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..974a122 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From a46bddc622a94076862b3d6d31c393fd31dd6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 19/59] fix: tdigest: quantiles beyond a heavy last centroid
 exceeded the maximum

---
 tdigest/double.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 974a122..75eea59 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -375,8 +375,8 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	}
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
-	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+	if lastWeight > 1 && float64(d.centroidsWeight)-weight < lastWeight/2.0 {
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
@@ -406,9 +406,9 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 		weightSoFar += dw
 	}
 
-	w1 := weight - float64(d.centroidsWeight) - float64(d.centroids[len(d.centroids)-1].weight)/2.0
-	w2 := float64(d.centroids[len(d.centroids)-1].weight)/2.0 - w1
-	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w1, d.max, w2), nil
+	w1 := weight - (float64(d.centroidsWeight) - lastWeight/2.0)
+	w2 := lastWeight/2.0 - w1
+	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w2, d.max, w1), nil
 }
 
 // PMF returns an approximation to the Probability Mass Function (PMF)
-- 
2.43.0


From 06bf7cc6efa20256cec62d3497ea3e0b60cb8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 20/59] fix: tdigest: merge lost the minimum and maximum of
 decoded digests

---
 tdigest/double.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index 75eea59..4a6abd6 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -214,6 +214,8 @@ func (d *Double) Merge(other *Double) error {
 	tmp = append(tmp, other.centroids...)
 
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
 
 	return nil
 }
-- 
2.43.0


From 2a255ae796d05aee05c5ff45155fc923861d2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 21/59] fix: tdigest: Quantile accepted NaN as a rank

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 4a6abd6..adaea42 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -352,7 +352,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) { // also refuses NaN
 		return 0, ErrInvalidRank
 	}
 
-- 
2.43.0


From 0da7ee2c485cb22ce53f17ed97db18416b91ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 22/59] fix: frequencies: sketches whose items were all purged
 counted as empty, losing their weight and error

---
 frequencies/items_sketch.go | 3 ++-
 frequencies/longs_sketch.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..17970f6 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -325,7 +325,8 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	// purging can remove every item of a stream that was not empty
+	return i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..7a49479 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -393,7 +393,8 @@ func (s *LongsSketch) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	// purging can remove every item of a stream that was not empty
+	return s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From af143af45208095bc03d7e62193819705ff28fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 23/59] fix: frequencies: string form with negative keys could
 not be read back

---
 frequencies/reverse_purge_long_hash_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..5007fb0 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,7 +288,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -296,7 +296,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, int64(value))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 866b0354b3f6e34413512790b22567cdcdf6edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 24/59] fix: frequencies: decoding an empty items sketch
 dropped its maximum map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 17970f6..16e50a8 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From a7752d0c11b5e4d49f7b99f40b45f9b4f32f07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 25/59] fix: frequencies: items sketches with a map size below
 8 panicked or purged by too small a sample

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 16e50a8..25ad597 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 6378765d1308d0b12000f57f3cdc82ce8a34c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 26/59] fix: common: the double hasher told the two zeros apart

---
 common/item_sketch_double.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..f533c31 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -39,6 +39,9 @@ var ItemSketchDoubleComparator = func(reverseOrder bool) CompareFn[float64] {
 }
 
 func (f ItemSketchDoubleHasher) Hash(item float64) uint64 {
+	if item == 0 {
+		item = 0 // the two zeros are equal
+	}
 	binary.LittleEndian.PutUint64(f.scratch[:], math.Float64bits(item))
 	return murmur3.SeedSum64(defaultSerdeHashSeed, f.scratch[:])
 }
-- 
2.43.0


From fa9f32fcc332eb6b587fe5cc5c329212f05345d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 27/59] fix: count: sketches without hash functions,
 overflowing size check and hash count for full confidence

---
 count/count_min_sketch.go | 6 +++++-
 count/utils.go            | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..410ad39 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
diff --git a/count/utils.go b/count/utils.go
index da7c25c..08df106 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -33,7 +33,7 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	if confidence < 0 || confidence > 1.0 {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0


From a04e6141702f3c2693964ef9324f6c8daea8ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 28/59] fix: count: Deserialize accepted other families, other
 seeds and incomplete images, and panicked on overlong ones

---
 count/count_min_sketch.go | 25 +++++++++++++++----------
 count/utils.go            | 12 ++++++++++++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 410ad39..7921c96 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -336,12 +336,23 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
 	if err != nil {
 		return nil, err
 	}
+	if seedHash != expectedSeedHash {
+		return nil, errors.New("incompatible seed hashes")
+	}
 
 	isEmpty := (flag & (1 << IsEmpty)) > 0
+	if !isEmpty && int64(r.Len()) != 8*(1+int64(numBuckets)*int64(numHashes)) {
+		return nil, errors.New("image size does not match the number of counters")
+	}
+
+	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	if err != nil {
+		return nil, err
+	}
 	if isEmpty {
 		return cms, nil
 	}
@@ -353,15 +364,9 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	}
 	cms.totalWeight = totalWeight
 
-	var w int64
-	var i int
-	for r.Len() > 0 {
-		err = binary.Read(r, binary.LittleEndian, &w)
-		if err != nil {
-			return nil, err
-		}
-		cms.sketchSlice[i] = w
-		i++
+	err = binary.Read(r, binary.LittleEndian, cms.sketchSlice)
+	if err != nil {
+		return nil, err
 	}
 
 	return cms, nil
diff --git a/count/utils.go b/count/utils.go
index 08df106..4af4c30 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -19,7 +19,10 @@ package count
 
 import (
 	"errors"
+	"fmt"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -37,6 +40,15 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+	if preamble != PreambleLongsShort {
+		return fmt.Errorf("possible corruption: unexpected preamble longs: %d", preamble)
+	}
+	if serVer != SerialVersion1 {
+		return fmt.Errorf("possible corruption: unexpected serial version: %d", serVer)
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return fmt.Errorf("possible corruption: family ID %d is not a count-min sketch", familyID)
+	}
 	return nil
 }
 
-- 
2.43.0


From e459420e86d153189bd539b5bb87b43ef92c8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 29/59] fix: filters: filters with 65535 hash functions looped
 forever

---
 filters/bloom_filter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..9824d8d 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -202,8 +202,8 @@ func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
 			bf.numBitsSet++
@@ -217,8 +217,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		if !getBit(bf.bitArray, idx) {
 			return false
 		}
@@ -231,8 +231,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint16(0); i < bf.numHashes; i++ {
+		idx := bf.getHashIndex(h0, h1, i+1)
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
 		if !wasSet {
-- 
2.43.0


From 3f7ccb57ef7ed1a08e695bfbfff7769ff8a3863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 30/59] fix: filters: decoding allocated the declared bit array
 before checking the image size, and accepted a filter without bits

---
 filters/bloom_filter_builder.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..8585b18 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -218,8 +218,17 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return nil, fmt.Errorf("numHashes must be positive")
 	}
 
-	// Calculate capacity
+	// Validate the bit array length and the image size before allocating
 	capacityBits := uint64(bitArrayLength) * 64
+	if capacityBits == 0 || capacityBits > maxBits {
+		return nil, fmt.Errorf("invalid bit array length: %d", bitArrayLength)
+	}
+	if !isEmpty && uint64(len(bytes)) != preambleBytes+uint64(bitArrayLength)*8 {
+		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleBytes+uint64(bitArrayLength)*8)
+	}
+	if isEmpty && len(bytes) != preambleEmptyBytes {
+		return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
+	}
 
 	// Create filter structure
 	bf := &bloomFilterImpl{
@@ -233,18 +242,10 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Handle empty filter
 	if isEmpty {
-		if len(bytes) != preambleEmptyBytes {
-			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
-		}
 		return bf, nil
 	}
 
 	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 597aa8e8b29c3580478847733c986fe84315d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 31/59] fix: sampling: reservoir union accepted limits below 2,
 panicked in Reset before the first update and kept a reduced k across Reset

---
 sampling/reservoir_items_union.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..ef28e96 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("max k must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
@@ -265,7 +269,10 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget != nil {
+		// merged sketches may have left the gadget with a smaller k
+		u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
+	}
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From c8b0bfa8d188e8a16304a34168acbc24572ad1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 32/59] fix: sampling: a decoded VarOpt sketch in estimation
 mode rejected every further update

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..cfdf1e0 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0, // the gap is not an item
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From 8753b0f22a78c48b7eb81d48b9cf566c7a8c2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 33/59] fix: sampling: VarOpt EstimateSubsetSum reported the
 subset weight as the total weight in exact mode

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..462e4a2 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -744,7 +744,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From cd79d84da8f06a9d41dc8568e001556292592bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 34/59] fix: sampling: VarOpt union results with a reduced k
 could not be encoded, and errors while reducing k were dropped

---
 sampling/varopt_items_sketch.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 462e4a2..3fac9a3 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -901,8 +901,9 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.h--
 		s.k--
 		s.n-- // will be re-incremented with the update
+		s.truncateToK()
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		return s.update(pulledItem, pulledWeight, pulledMark)
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -916,8 +917,19 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.truncateToK()
 	default:
 	}
 
 	return nil
 }
+
+// truncateToK drops the slots beyond the k+1 ones an estimation mode sketch uses.
+func (s *VarOptItemsSketch[T]) truncateToK() {
+	clear(s.data[s.k+1:])
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From 36bd025ef2bbc655fdea4d8ef5aac285f4b18d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 35/59] fix: sampling: VarOpt union results could hold exact
 items lighter than tau

---
 sampling/varopt_items_union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..a05d9a3 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -223,8 +223,9 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 	}
 
 	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
+	outerTau := u.outerTau() // the gadget has no tau of its own, since r == 0
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < outerTau && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From 80fc79cb17ef1f63d27b454df1282fa841fb8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 36/59] fix: sampling: VarOpt union Result failed on the
 rounding of large weights

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index a05d9a3..950a887 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -397,7 +397,7 @@ func (u *VarOptItemsUnion[T]) markMovingGadgetCoercer() (*VarOptItemsSketch[T],
 			resultK, resultH+resultR,
 		)
 	}
-	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10 {
+	if math.Abs(transferredWeight-u.outerTauNumer) > 1e-10*max(1, u.outerTauNumer) {
 		return nil, fmt.Errorf(
 			"invalid state after mark moving: expected transferredWeight=%g, outerTauNumer=%g",
 			transferredWeight, u.outerTauNumer,
-- 
2.43.0


From 417603bf74ca3b4c434a72859422e1d310ca69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 37/59] fix: sampling: VarOpt updates failed when rounding made
 an item as light as tau look lighter

---
 sampling/varopt_items_sketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 3fac9a3..5ee38c3 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -271,7 +271,8 @@ func (s *VarOptItemsSketch[T]) update(item T, weight float64, mark bool) error {
 			return err
 		}
 
-		if minWeight < s.tau() {
+		// items as light as tau may compare as lighter because of rounding
+		if minWeight < s.tau()*(1-1e-9) {
 			return errors.New("sketch not in valid estimation mode")
 		}
 	}
-- 
2.43.0


From 0f08051bc9f70120d0dedffd9d84484177fcde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 38/59] fix: common: item serdes panicked on truncated input
 and allocated before checking its size

---
 common/item_sketch_double.go | 6 +++++-
 common/item_sketch_float.go  | 6 +++++-
 common/item_sketch_long.go   | 6 +++++-
 common/item_sketch_string.go | 9 +++++----
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index f533c31..059f70a 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -74,9 +75,12 @@ func (f ItemSketchDoubleSerDe) SerializeManyToSlice(item []float64) []byte {
 }
 
 func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float64{}, nil
 	}
+	if !checkBounds(offsetBytes, 8*numItems, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..e9088e0 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -63,9 +64,12 @@ func (s ItemSketchFloatSerDe) SerializeManyToSlice(items []float32) []byte {
 }
 
 func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float32, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float32{}, nil
 	}
+	if !checkBounds(offsetBytes, 4*numItems, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..3d43b25 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -70,9 +71,12 @@ func (f ItemSketchLongSerDe) SerializeManyToSlice(item []int64) []byte {
 }
 
 func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]int64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []int64{}, nil
 	}
+	if !checkBounds(offsetBytes, 8*numItems, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..63586de 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,23 +117,24 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
-	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
 	memCap := len(mem)
+	if !checkBounds(offset, intSize*numItems, memCap) {
+		return nil, errors.New("offset out of bounds")
+	}
+	array := make([]string, numItems)
 	for i := 0; i < numItems; i++ {
 		if !checkBounds(offset, intSize, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
-		copy(utf8Bytes, mem[offset:offset+strLength])
+		array[i] = string(mem[offset : offset+strLength])
 		offset += strLength
-		array[i] = string(utf8Bytes)
 	}
 	return array, nil
 }
-- 
2.43.0


From c26113e0e620865045ac0b57df0e1ad2b2b7eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 39/59] fix: sampling: reservoir decoding panicked on truncated
 images, accepted impossible item counts and allocated the declared capacity

---
 sampling/reservoir_items_sketch.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..8842dd8 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -437,7 +437,14 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	isEmpty := (flags & flagEmpty) != 0
 	n := 0
 	if !isEmpty {
+		preambleBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
+		if preambleLong != internal.FamilyEnum.ReservoirItems.MaxPreLongs || len(data) < preambleBytes {
+			return nil, fmt.Errorf("possible corruption: Non-empty sketch with only %d preamble longs, %d bytes", preambleLong, len(data))
+		}
 		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if n < 1 || n > maxItemsSeen {
+			return nil, fmt.Errorf("possible corruption: invalid number of items seen: %d", n)
+		}
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
@@ -460,33 +467,13 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	}
 
 	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
-	capacity := k
-	if n < k {
-		ceilingLgK, _ := internal.ExactLog2(common.CeilingPowerOf2(k))
-		minLgSize, _ := internal.ExactLog2(common.CeilingPowerOf2(n))
-		initialLgSize := startingSubMultiple(ceilingLgK, int(rf), max(minLgSize, minLgArrItems))
-		capacity = adjustedSamplingAllocationSize(k, 1<<initialLgSize)
-	}
-
 	numSamples := min(n, k)
 	items, err := serde.DeserializeManyFromSlice(data, preambleLongBytes, numSamples)
 	if err != nil {
 		return nil, err
 	}
 
-	sketch, err := newReservoirItemsSketchFromStates(items, int64(n), rf, k)
-	if err != nil {
-		return nil, err
-	}
-
-	sketch.data = slices.Grow(sketch.data, capacity)
-
-	return &ReservoirItemsSketch[T]{
-		k:    k,
-		n:    int64(n),
-		rf:   rf,
-		data: items,
-	}, nil
+	return newReservoirItemsSketchFromStates(items, int64(n), rf, k)
 }
 
 func newReservoirItemsSketchFromStates[T any](
-- 
2.43.0


From 37f2f08b279272845b313d71aef834855561ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 40/59] fix: sampling: VarOpt decoding allocated declared sizes
 before checking the image, and accepted non-finite weights, overflowing
 counts and gadgets without marks

---
 sampling/varopt_items_sketch_decoder.go | 117 +++++++++++++-----------
 sampling/varopt_items_union_decoder.go  |   5 +
 2 files changed, 68 insertions(+), 54 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index cfdf1e0..25dbb38 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -108,32 +108,53 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		totalWeightR = math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
 
-		if math.IsNaN(totalWeightR) || r == 0 || totalWeightR <= 0 {
+		if math.IsNaN(totalWeightR) || math.IsInf(totalWeightR, 0) || r == 0 || totalWeightR <= 0 {
 			return nil, fmt.Errorf("data is corrupt in full mode: invalid R region weight: %f", totalWeightR)
 		}
 	}
 
-	sliceLen := int(allocSize)
+	// Locate and read every part before allocating for the declared sizes.
+	weightsIndex := index
+	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
+		return nil, err
+	}
+	index += int(h) * 8
+
+	marksIndex := index
+	if isGadget {
+		marksBytes := (int(h) + 7) / 8
+		if err := validateBuffer(buffer, index+marksBytes); err != nil {
+			return nil, err
+		}
+		index += marksBytes
+	}
+
+	hRegionData, index, err := decodeVarOptItems(buffer, index, int(h), serde)
+	if err != nil {
+		return nil, err
+	}
+	rRegionData, _, err := decodeVarOptItems(buffer, index, int(r), serde)
+	if err != nil {
+		return nil, err
+	}
+
+	sliceLen := allocSize
 	if r == 0 {
 		sliceLen = int(h)
+		allocSize = max(sliceLen, min(allocSize, 1<<minLgArrItems))
 	}
 
-	// read h weights, fill in rest of slice with -1.0
+	// fill in h weights, rest of slice with -1.0
 	weights := make([]float64, sliceLen, allocSize)
-	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
-		return nil, err
-	}
 	for i := 0; i < int(h); i++ {
-		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
-		index += 8
-
-		if w <= 0 {
-			return nil, fmt.Errorf("non-positive weight: %f", w)
+		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[weightsIndex+8*i:]))
+		if !(w > 0) || math.IsInf(w, 0) {
+			return nil, fmt.Errorf("infinite or non-positive weight: %f", w)
 		}
 
 		weights[i] = w
 	}
-	for i := h; i < uint32(len(weights)); i++ {
+	for i := int(h); i < len(weights); i++ {
 		weights[i] = -1
 	}
 
@@ -143,18 +164,8 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	)
 	if isGadget {
 		marks = make([]bool, sliceLen, allocSize)
-		val := uint8(0)
 		for i := 0; i < int(h); i++ {
-			if (i & 0x7) == 0 {
-				if err := validateBuffer(buffer, index+1); err != nil {
-					return nil, err
-				}
-
-				val = buffer[index]
-				index++
-			}
-
-			marks[i] = (val>>(i&0x7))&0x1 == 1
+			marks[i] = (buffer[marksIndex+i/8]>>(i&0x7))&0x1 == 1
 			if marks[i] {
 				numMarksInH++
 			}
@@ -162,36 +173,9 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	}
 
 	data := make([]T, sliceLen, allocSize)
-
-	hBytes, err := serde.SizeOfMany(buffer, index, int(h))
-	if err != nil {
-		return nil, err
-	}
-	if err := validateBuffer(buffer, index+hBytes); err != nil {
-		return nil, err
-	}
-	hRegionData, err := serde.DeserializeManyFromSlice(buffer, index, int(h))
-	if err != nil {
-		return nil, err
-	}
-	index += hBytes
 	copy(data[:h], hRegionData)
-
 	if r > 0 {
-		rBytes, err := serde.SizeOfMany(buffer, index, int(r))
-		if err != nil {
-			return nil, err
-		}
-		if err := validateBuffer(buffer, index+rBytes); err != nil {
-			return nil, err
-		}
-		rData, err := serde.DeserializeManyFromSlice(buffer, index, int(r))
-		if err != nil {
-			return nil, err
-		}
-		index += rBytes
-
-		copy(data[h+1:h+1+r], rData)
+		copy(data[h+1:], rRegionData)
 	}
 
 	return &VarOptItemsSketch[T]{
@@ -209,6 +193,28 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	}, nil
 }
 
+// decodeVarOptItems reads numItems items at the index and returns the index behind them.
+func decodeVarOptItems[T any](
+	buffer []byte, index int, numItems int, serde common.ItemSketchSerde[T],
+) ([]T, int, error) {
+	if numItems == 0 {
+		return nil, index, nil
+	}
+
+	numBytes, err := serde.SizeOfMany(buffer, index, numItems)
+	if err != nil {
+		return nil, 0, err
+	}
+	if err := validateBuffer(buffer, index+numBytes); err != nil {
+		return nil, 0, err
+	}
+	items, err := serde.DeserializeManyFromSlice(buffer, index, numItems)
+	if err != nil {
+		return nil, 0, err
+	}
+	return items, index + numBytes, nil
+}
+
 func validateVarOptItemsSketchPreambleLongs(preambleLongs uint8, isEmpty bool) error {
 	if isEmpty {
 		if preambleLongs != preambleLongsEmpty {
@@ -233,10 +239,13 @@ func validateVarOptItemsSketchFamilyAndSerVer(familyID, serVer uint8) error {
 
 func computeVarOptItemsSketchDataSize(
 	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32, rf ResizeFactor,
-) (uint32, error) {
+) (int, error) {
 	if k == 0 || k > varOptMaxK {
 		return 0, errors.New("k must be at least 1 and less than 2^31 - 1")
 	}
+	if n > math.MaxInt64 {
+		return 0, fmt.Errorf("invalid number of items seen: %d", n)
+	}
 
 	allocSize := 0
 	if n <= uint64(k) {
@@ -264,14 +273,14 @@ func computeVarOptItemsSketchDataSize(
 			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 		}
 
-		if h+r != k {
+		if uint64(h)+uint64(r) != uint64(k) {
 			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
 		}
 
 		allocSize = int(k) + 1
 	}
 
-	return uint32(allocSize), nil
+	return allocSize, nil
 }
 
 func validateBuffer(buf []byte, endIndex int) error {
diff --git a/sampling/varopt_items_union_decoder.go b/sampling/varopt_items_union_decoder.go
index 363081d..ea482bb 100644
--- a/sampling/varopt_items_union_decoder.go
+++ b/sampling/varopt_items_union_decoder.go
@@ -19,6 +19,7 @@ package sampling
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 
@@ -111,6 +112,10 @@ func DecodeVarOptItemsUnion[T any](buffer []byte, serde common.ItemSketchSerde[T
 		return nil, err
 	}
 
+	if gadget.marks == nil {
+		return nil, errors.New("sketch of a union without marks")
+	}
+
 	return &VarOptItemsUnion[T]{
 		gadget:        gadget,
 		k:             maxK,
-- 
2.43.0


From 0d2cb82509cacb61fa84fa4c1cd4cee4b2fce2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 41/59] fix: theta: decoding panicked on truncated version 1 to
 3 images and accepted impossible entry widths in version 4

---
 theta/decoder.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..7d7b4b2 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -167,7 +167,15 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 		theta = binary.LittleEndian.Uint64(bytes[compactSketchV4ThetaU64*8:])
 	}
 
+	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits < 1 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d", entryBits)
+	}
+
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bytes of the number of entries: %d", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -184,7 +192,6 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 	dataOffsetBytes += int(numEntriesBytes)
 
-	entryBits := bytes[compactSketchV4EntryBitsByte]
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -254,6 +261,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +313,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +345,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +390,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From da84c5fcd146e7d7a94d1bdb6656fe956e7a5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 42/59] fix: theta, tuple: ANotB of unordered sketches rehashed
 its table on every insertion beyond half its size

---
 theta/a_not_b.go | 2 +-
 tuple/a_not_b.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/theta/a_not_b.go b/theta/a_not_b.go
index 1224f96..ce5f762 100644
--- a/theta/a_not_b.go
+++ b/theta/a_not_b.go
@@ -112,7 +112,7 @@ func computeSortBased(a, b Sketch, theta uint64) []uint64 {
 func computeHashBased(a, b Sketch, theta uint64) ([]uint64, error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := NewHashtable(lgSize, lgSize, ResizeX1, 1, 0, 0, false)
+	table := NewHashtable(lgSize, lgSize-1, ResizeX1, 1, 0, 0, false)
 
 	for entry := range b.All() {
 		if entry < theta {
diff --git a/tuple/a_not_b.go b/tuple/a_not_b.go
index 126dbb0..0157087 100644
--- a/tuple/a_not_b.go
+++ b/tuple/a_not_b.go
@@ -126,7 +126,7 @@ func computeSortBased[S Summary](a, b Sketch[S], theta uint64) []entry[S] {
 func computeHashBased[S Summary](a, b Sketch[S], thetaVal uint64) ([]entry[S], error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := theta.NewHashtable(lgSize, lgSize, theta.ResizeX1, 1, 0, 0, false)
+	table := theta.NewHashtable(lgSize, lgSize-1, theta.ResizeX1, 1, 0, 0, false)
 
 	for hash := range b.All() {
 		if hash < thetaVal {
@@ -261,7 +261,7 @@ func computeSortBasedTupleAThetaB[S Summary](a Sketch[S], b theta.Sketch, theta
 func computeHashBasedTupleAThetaB[S Summary](a Sketch[S], b theta.Sketch, thetaVal uint64) ([]entry[S], error) {
 	lgSize := internal.LgSizeFromCount(b.NumRetained(), rebuildThreshold)
 
-	table := theta.NewHashtable(lgSize, lgSize, theta.ResizeX1, 1, 0, 0, false)
+	table := theta.NewHashtable(lgSize, lgSize-1, theta.ResizeX1, 1, 0, 0, false)
 
 	for hash := range b.All() {
 		if hash < thetaVal {
-- 
2.43.0


From a740c5db1a9543b71189b27b261aaace0cf16be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 43/59] fix: tuple: decoding allocated the declared number of
 entries and string lengths before reading them

---
 tuple/arrayofnumbers_sketch_decoder.go | 3 ++-
 tuple/arrayofstrings_sketch.go         | 8 +++++---
 tuple/decoder.go                       | 8 ++++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..ba35d7d 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -129,7 +129,8 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			return nil, err
 		}
 
-		hashes := make([]uint64, 0, numEntries)
+		// the declared number of entries is not trusted with an allocation
+		hashes := make([]uint64, 0, min(numEntries, maxPreallocatedEntries))
 		for i := uint32(0); i < numEntries; i++ {
 			var hash uint64
 			if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..b44e734 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/cespare/xxhash/v2"
 )
@@ -159,12 +160,13 @@ func readStrings(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 
-		bytes := make([]byte, length)
-		if _, err := io.ReadFull(r, bytes); err != nil {
+		// the declared length is not trusted with an allocation
+		var sb strings.Builder
+		if _, err := io.CopyN(&sb, r, int64(length)); err != nil {
 			return nil, err
 		}
 
-		values = append(values, string(bytes))
+		values = append(values, sb.String())
 	}
 
 	return values, nil
diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..2cb1a7d 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -27,6 +27,9 @@ import (
 	"github.com/apache/datasketches-go/theta"
 )
 
+// maxPreallocatedEntries limits the memory decoders reserve before having read the entries.
+const maxPreallocatedEntries = 1 << 12
+
 // SummaryReader reads and returns a summary from the reader.
 // Implementations should read the format written by a corresponding SummaryWriter.
 //
@@ -132,7 +135,8 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		}
 	}
 
-	entries := make([]entry[S], numEntries)
+	// the declared number of entries is not trusted with an allocation
+	entries := make([]entry[S], 0, min(numEntries, maxPreallocatedEntries))
 	for i := uint32(0); i < numEntries; i++ {
 		var hash uint64
 		if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -144,7 +148,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 			return nil, err
 		}
 
-		entries[i] = entry[S]{Hash: hash, Summary: summary}
+		entries = append(entries, entry[S]{Hash: hash, Summary: summary})
 	}
 
 	isOrdered := (flags & (1 << flagIsOrdered)) != 0
-- 
2.43.0


From c1f3be0de7d68e6211d83c4bc7df582d79f011a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 44/59] fix: hll: decoding panicked on truncated or corrupt
 images, and a failed update lost the sketch

---
 hll/coupon_hash_set.go |  14 +++++
 hll/hll_6array.go      |   6 +-
 hll/hll_8array.go      |   6 +-
 hll/hll_sketch.go      |   8 ++-
 hll/union.go           |   3 +
 hll/utils.go           | 129 +++++++++++++++++++++++++++++++++++++++++
 6 files changed, 159 insertions(+), 7 deletions(-)

diff --git a/hll/coupon_hash_set.go b/hll/coupon_hash_set.go
index 6608ded..9561ed3 100644
--- a/hll/coupon_hash_set.go
+++ b/hll/coupon_hash_set.go
@@ -243,6 +243,20 @@ func deserializeCouponHashSet(byteArray []byte) (hllCoupon, error) {
 		for it := 0; it < couponArrInts; it++ {
 			set.couponIntArr[it] = int(binary.LittleEndian.Uint32(byteArray[hashSetIntArrStart+(it<<2) : hashSetIntArrStart+(it<<2)+4]))
 		}
+		seen := make([]bool, couponArrInts)
+		for _, coupon := range set.couponIntArr {
+			if coupon == empty {
+				continue
+			}
+			idx, err := findCoupon(set.couponIntArr, lgCouponArrInts, coupon)
+			if err != nil {
+				return nil, err
+			}
+			if idx < 0 || seen[idx] {
+				return nil, fmt.Errorf("possible Corruption: misplaced or duplicate coupon: %d", coupon)
+			}
+			seen[idx] = true
+		}
 	}
 	return &set, nil
 }
diff --git a/hll/hll_6array.go b/hll/hll_6array.go
index 2e9dea4..afdc260 100644
--- a/hll/hll_6array.go
+++ b/hll/hll_6array.go
@@ -106,10 +106,10 @@ func (h *hll6ArrayImpl) updateSlotWithKxQ(slotNo int, newValue int) error {
 			return err
 		}
 		if oldValue == 0 {
-			h.numAtCurMin-- //interpret numAtCurMin as num Zeros
-			if h.numAtCurMin < 0 {
-				return fmt.Errorf("numAtCurMin < 0")
+			if h.numAtCurMin < 1 {
+				return fmt.Errorf("numAtCurMin < 1")
 			}
+			h.numAtCurMin-- //interpret numAtCurMin as num Zeros
 		}
 	}
 	return nil
diff --git a/hll/hll_8array.go b/hll/hll_8array.go
index a7a94eb..ade3815 100644
--- a/hll/hll_8array.go
+++ b/hll/hll_8array.go
@@ -132,10 +132,10 @@ func (h *hll8ArrayImpl) updateSlotWithKxQ(slotNo int, newValue int) error {
 			return err
 		}
 		if oldValue == 0 {
-			h.numAtCurMin-- //interpret numAtCurMin as num Zeros
-			if h.numAtCurMin < 0 {
-				return fmt.Errorf("numAtCurMin < 0")
+			if h.numAtCurMin < 1 {
+				return fmt.Errorf("numAtCurMin < 1")
 			}
+			h.numAtCurMin-- //interpret numAtCurMin as num Zeros
 		}
 	}
 	return nil
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..5fc5f7e 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -186,6 +186,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkImageBounds(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
@@ -337,8 +340,11 @@ func (h *hllSketchState) couponUpdate(coupon int) (hllSketchStateI, error) {
 		return h.sketch, nil
 	}
 	sk, err := h.sketch.couponUpdate(coupon)
+	if err != nil {
+		return h.sketch, err
+	}
 	h.sketch = sk
-	return h.sketch, err
+	return h.sketch, nil
 }
 
 func (h *hllSketchState) putRebuildCurMinNumKxQFlag(rebuildCurMinNumKxQFlag bool) {
diff --git a/hll/union.go b/hll/union.go
index 8a4de2b..355d93a 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -114,6 +114,9 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
+	if len(byteArray) < 8 {
+		return nil, fmt.Errorf("input array too small: %d", len(byteArray))
+	}
 	lgK, err := checkLgK(extractLgK(byteArray))
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..f556dcd 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -18,6 +18,7 @@
 package hll
 
 import (
+	"encoding/binary"
 	"fmt"
 	"math"
 
@@ -180,6 +181,134 @@ func checkPreamble(preamble []byte) (curMode, error) {
 	return curMode, nil
 }
 
+// checkImageBounds verifies that the image is complete and that the counts, sizes and
+// register values it declares are possible, so that it can be read and used without further checks.
+func checkImageBounds(image []byte, mode curMode) error {
+	lgConfigK, err := checkLgK(extractLgK(image))
+	if err != nil {
+		return err
+	}
+	tgtHllType := extractTgtHllType(image)
+	if tgtHllType > TgtHllTypeHll8 {
+		return fmt.Errorf("possible Corruption: Invalid target HLL type: %d", tgtHllType)
+	}
+
+	switch mode {
+	case curModeList:
+		count := extractListCount(image)
+		if count >= 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid list count: %d", count)
+		}
+		return checkCoupons(image, listIntArrStart, count, count)
+	case curModeSet:
+		count := extractHashSetCount(image)
+		if resizeDenom*count > resizeNumber<<max(lgConfigK-3, 0) {
+			return fmt.Errorf("possible Corruption: Invalid set count: %d", count)
+		}
+		if extractCompactFlag(image) {
+			return checkCoupons(image, hashSetIntArrStart, count, count)
+		}
+		lgArr := extractLgArr(image)
+		if lgArr < lgInitSetSize {
+			if lgArr, err = computeLgArr(image, count, lgConfigK); err != nil {
+				return err
+			}
+		}
+		if lgArr > lgConfigK-3 {
+			return fmt.Errorf("possible Corruption: Invalid set size: 2^%d", lgArr)
+		}
+		return checkCoupons(image, hashSetIntArrStart, 1<<lgArr, count)
+	case curModeHll:
+		return checkRegisters(image, lgConfigK, tgtHllType)
+	default:
+		return fmt.Errorf("possible Corruption: Invalid mode: %d", mode)
+	}
+}
+
+// checkCoupons verifies that the image holds size coupon slots, count of which are not empty.
+func checkCoupons(image []byte, start int, size int, count int) error {
+	if len(image) < start+size<<2 {
+		return fmt.Errorf("possible Corruption: Insufficient Array size: %d", len(image))
+	}
+	for i := 0; i < size; i++ {
+		if binary.LittleEndian.Uint32(image[start+i<<2:]) != empty {
+			count--
+		}
+	}
+	if count != 0 {
+		return fmt.Errorf("possible Corruption: Invalid number of coupons")
+	}
+	return nil
+}
+
+// checkRegisters verifies that the image holds all registers with possible values.
+func checkRegisters(image []byte, lgConfigK int, tgtHllType TgtHllType) error {
+	const maxValue = 63
+	k := 1 << lgConfigK
+	arrBytes := k
+	switch tgtHllType {
+	case TgtHllTypeHll4:
+		arrBytes = k >> 1
+	case TgtHllTypeHll6:
+		arrBytes = (k*3)>>2 + 1
+	}
+	auxStart := hllByteArrStart + arrBytes
+	if len(image) < auxStart {
+		return fmt.Errorf("possible Corruption: Insufficient Array size: %d", len(image))
+	}
+	if curMin := extractCurMin(image); curMin > maxValue || extractNumAtCurMin(image) > k {
+		return fmt.Errorf("possible Corruption: Invalid minimum register: %d", curMin)
+	}
+	registers := image[hllByteArrStart:auxStart]
+	switch tgtHllType {
+	case TgtHllTypeHll8:
+		for _, v := range registers {
+			if v > maxValue {
+				return fmt.Errorf("possible Corruption: Invalid register: %d", v)
+			}
+		}
+	case TgtHllTypeHll4:
+		auxCount := extractAuxCount(image)
+		auxInts := auxCount
+		if auxCount > 0 && !extractCompactFlag(image) {
+			lgArr := extractLgArr(image)
+			if lgArr > lgConfigK+1 {
+				return fmt.Errorf("possible Corruption: Invalid exception table size: 2^%d", lgArr)
+			}
+			auxInts = 1 << lgArr
+		}
+		if auxCount > k || len(image) < auxStart+auxInts<<2 {
+			return fmt.Errorf("possible Corruption: Invalid exception count: %d", auxCount)
+		}
+		tokens := 0
+		for _, b := range registers {
+			for _, v := range [2]byte{b & 0xf, b >> 4} {
+				if v == auxToken {
+					tokens++
+				} else if extractCurMin(image)+int(v) > maxValue {
+					return fmt.Errorf("possible Corruption: Invalid register: %d", v)
+				}
+			}
+		}
+		pairs := 0
+		for i := 0; i < auxInts; i++ {
+			pair := int(binary.LittleEndian.Uint32(image[auxStart+i<<2:]))
+			if pair == empty {
+				continue
+			}
+			pairs++
+			slotNo := getPairLow26(pair) & (k - 1)
+			if (registers[slotNo>>1]>>((slotNo&1)<<2))&0xf != auxToken {
+				return fmt.Errorf("possible Corruption: Exception for a regular register: %d", slotNo)
+			}
+		}
+		if pairs != tokens || pairs != auxCount {
+			return fmt.Errorf("possible Corruption: Invalid number of exceptions: %d", pairs)
+		}
+	}
+	return nil
+}
+
 func getMaxUpdatableSerializationBytes(lgConfigK int, tgtHllType TgtHllType) int {
 	var arrBytes int
 	if tgtHllType == TgtHllTypeHll4 {
-- 
2.43.0


From a89b152a4253b3ef8e27ccc3dabd62054af2db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 45/59] fix: cpc: decoding panicked on truncated or corrupt
 images and allocated the declared number of coupons

---
 cpc/cpc_compressed_state.go | 12 +++++++-
 cpc/cpc_sketch.go           | 31 ++++++++++++++++++--
 cpc/cpc_wrapper.go          |  2 +-
 cpc/pair_table.go           |  3 ++
 cpc/utils.go                | 56 +++++++++++++++++++++++++++++++++++++
 5 files changed, 100 insertions(+), 4 deletions(-)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index b77a646..9d57b0f 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -519,6 +519,9 @@ func (c *CpcCompressedState) uncompressSlidingFlavor(src *CpcSketch) error {
 			rowCol := pairs[i]
 			row := rowCol >> 6
 			col := rowCol & 63
+			if col >= len(permutation) {
+				return fmt.Errorf("uncompressSlidingFlavor: invalid pair value %d at index %d", rowCol, i)
+			}
 			// First, undo the permutation.
 			col = int(permutation[col])
 			// Then, undo the rotation: old = (new + (offset+8)) mod 64.
@@ -537,7 +540,7 @@ func (c *CpcCompressedState) uncompressSlidingFlavor(src *CpcSketch) error {
 }
 
 func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
-	if err := checkLoPreamble(bytes); err != nil {
+	if err := checkImage(bytes); err != nil {
 		return nil, err
 	}
 	if !isCompressed(bytes) {
@@ -723,6 +726,10 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if err := lowLevelUncompressPairs(pairs, numPairs, numBaseBits, source.CsvStream, source.CsvLengthInts); err != nil {
 		return nil, err
 	}
+	// The pairs are sorted by row.
+	if last := pairs[numPairs-1]; last>>6 >= srcK {
+		return nil, fmt.Errorf("uncompressTheSurprisingValues: row %d out of range", last>>6)
+	}
 	return pairs, nil
 }
 
@@ -941,6 +948,9 @@ func lowLevelUncompressPairs(pairArray []int, numPairsToDecode, numBaseBits int,
 		}
 		rowIndex := predictedRowIndex + int(yDelta)
 		colIndex := predictedColIndex + xDelta
+		if colIndex > 63 {
+			return fmt.Errorf("lowLevelUncompressPairs: column %d out of range", colIndex)
+		}
 		rowCol := (rowIndex << 6) | colIndex
 		pairArray[pairIndex] = rowCol
 		pairIndex++
diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index 7e0d307..97daffe 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -117,8 +117,35 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 	sketch.slidingWindow = nil
 	sketch.pairTable = nil
 
-	err = c.uncompress(sketch)
-	return sketch, err
+	if err := c.uncompress(sketch); err != nil {
+		return nil, err
+	}
+	if n := sketch.countCoupons(); n != int64(sketch.numCoupons) {
+		return nil, fmt.Errorf("image declares %d coupons but holds %d", sketch.numCoupons, n)
+	}
+	return sketch, nil
+}
+
+// countCoupons counts the coupons held by the pair table and the sliding window.
+func (c *CpcSketch) countCoupons() int64 {
+	n := int64(c.windowOffset) << c.lgK // columns below the window are full, except for surprising zeros
+	for _, b := range c.slidingWindow {
+		n += int64(bits.OnesCount8(b))
+	}
+	if c.pairTable == nil {
+		return n
+	}
+	for _, rowCol := range c.pairTable.slotsArr {
+		if rowCol == -1 {
+			continue
+		}
+		if rowCol&63 < c.windowOffset {
+			n--
+		} else {
+			n++
+		}
+	}
+	return n
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index ec2d268..6d72984 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -32,7 +32,7 @@ type CpcWrapper struct {
 // that contains a CpcSketch. It checks that the preamble is valid and that
 // the sketch is in compressed format.
 func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
-	if err := checkLoPreamble(byteArray); err != nil {
+	if err := checkImage(byteArray); err != nil {
 		return nil, fmt.Errorf("CpcWrapper: preamble check failed: %w", err)
 	}
 	if !isCompressed(byteArray) {
diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index f163e50..b1aa069 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -320,6 +320,9 @@ func newInstanceFromPairsArray(pairs []int, numPairs, lgK int) (*pairTable, erro
 	for (upsizeDenom * numPairs) > (upsizeNumer * (1 << lgNumSlots)) {
 		lgNumSlots++
 	}
+	if lgNumSlots > 6+lgK {
+		return nil, fmt.Errorf("too many pairs: %d", numPairs)
+	}
 	// Create a new pairTable with validBits = 6 + lgK.
 	table, err := NewPairTable(lgNumSlots, 6+lgK)
 	if err != nil {
diff --git a/cpc/utils.go b/cpc/utils.go
index 2692c1b..5f88851 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -299,6 +299,53 @@ func checkLoPreamble(bytes []byte) error {
 	return nil
 }
 
+// checkImage verifies that the image has a valid preamble, is complete, and that the number of coupons
+// and the stream lengths it declares are possible for its format.
+func checkImage(bytes []byte) error {
+	if err := checkLoPreamble(bytes); err != nil {
+		return err
+	}
+	preInts := getPreInts(bytes)
+	if err := checkCapacity(len(bytes), preInts<<2); err != nil {
+		return err
+	}
+	format := getFormat(bytes)
+	if format == CpcFormatEmptyMerged || format == CpcFormatEmptyHip {
+		return nil
+	}
+
+	lgK := getLgK(bytes)
+	k := 1 << lgK
+	numCoupons := getNumCoupons(bytes)
+	flavor := determineFlavor(lgK, numCoupons)
+	hasWindow := getFlags(bytes)&windowFlagMask > 0
+	hasSv := getFlags(bytes)&supValFlagMask > 0
+	if !hasWindow && flavor != CpcFlavorSparse && flavor != CpcFlavorHybrid ||
+		hasWindow && flavor != CpcFlavorPinned && flavor != CpcFlavorSliding ||
+		determineCorrectOffset(lgK, numCoupons) > 56 {
+		return fmt.Errorf("numCoupons %d is impossible for format %s, lgK %d", numCoupons, format.String(), lgK)
+	}
+
+	var wLengthInts, svLengthInts int
+	if hasWindow {
+		wLengthInts = getWLengthInts(bytes)
+		if k > wLengthInts<<5 { // every row takes at least one bit
+			return fmt.Errorf("window length %d is impossible for lgK %d", wLengthInts, lgK)
+		}
+	}
+	if hasSv {
+		svLengthInts = getSvLengthInts(bytes)
+		numSv := numCoupons
+		if hasWindow {
+			numSv = getNumSV(bytes)
+		}
+		if numSv == 0 || numSv > uint64(svLengthInts)<<4 { // every pair takes at least two bits
+			return fmt.Errorf("surprising values length %d is impossible for %d values", svLengthInts, numSv)
+		}
+	}
+	return checkCapacity(len(bytes), (preInts+wLengthInts+svLengthInts)<<2)
+}
+
 func checkBounds(reqOff, reqLen, allocSize int) error {
 	if reqOff < 0 || reqLen < 0 || reqOff+reqLen < 0 || allocSize-(reqOff+reqLen) < 0 {
 		return fmt.Errorf("bounds Violation: reqOffset: %d, reqLength: %d, (reqOff + reqLen): %d, allocSize: %d", reqOff, reqLen, reqOff+reqLen, allocSize)
@@ -854,6 +901,12 @@ func putFirst8(mem []byte, preInts, lgK, fiCol, flags byte, seedHash int16) erro
 func CpcSketchToString(mem []byte, detail bool) (string, error) {
 	LS := "\n"
 	capBytes := len(mem)
+	if err := checkCapacity(capBytes, 8); err != nil {
+		return "", err
+	}
+	if err := checkCapacity(capBytes, getDefinedPreInts(getFormat(mem))<<2); err != nil {
+		return "", err
+	}
 
 	// Low preamble fields (first 8 bytes)
 	preInts := int(mem[loFieldPreInts]) & 0xFF
@@ -1157,6 +1210,9 @@ func CpcSketchToString(mem []byte, detail bool) (string, error) {
 	sb.WriteString(fmt.Sprintf("Required Bytes                  : %d%s", reqBytes, LS))
 
 	if detail {
+		if err := checkCapacity(capBytes, int(reqBytes)); err != nil {
+			return "", err
+		}
 		sb.WriteString(LS + "### CPC SKETCH IMAGE - DATA" + LS)
 		if wLengthInts > 0 {
 			sb.WriteString(LS + "Window Stream:" + LS)
-- 
2.43.0


From 92c931e92abdb9fdaa16e9f810318ed78ffd5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 46/59] fix: kll: decoding panicked on truncated or corrupt
 images, and the constructor accepted values of m that images cannot hold

---
 kll/items_sketch.go          |  5 +++++
 kll/items_sketch_validate.go | 32 +++++++++++++++++++++++++++++++-
 kll/sketch_structure.go      |  2 +-
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index c3e5e58..dfc769c 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -66,6 +66,8 @@ const (
 	_MAX_K     = (1 << 16) - 1
 	_MIN_M     = 2 //The minimum M
 	_MAX_M     = 8 //The maximum M
+
+	_MAX_NUM_LEVELS = 61 //The largest number of levels with a defined capacity
 )
 
 var (
@@ -86,6 +88,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index c470181..c08f835 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,7 +57,7 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
+	capa := len(srcMem)
 	if capa < 8 {
 		return nil, fmt.Errorf("Memory too small: %d", capa)
 	}
@@ -107,9 +107,18 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
+		if vlid.numLevels < 1 || vlid.numLevels > _MAX_NUM_LEVELS {
+			return fmt.Errorf("Invalid number of levels: %d", vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, int(vlid.numLevels)+1)
 		for i := 0; i < int(vlid.numLevels); i++ {
@@ -117,6 +126,9 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		if err := checkLevels(vlid.levelsArr, vlid.n); err != nil {
+			return err
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
@@ -151,6 +163,24 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 	return nil
 }
 
+// checkLevels verifies that the level boundaries are ordered and that the weights of the retained items add up to n.
+func checkLevels(levelsArr []uint32, n uint64) error {
+	for i := 0; i < len(levelsArr)-1; i++ {
+		if levelsArr[i] > levelsArr[i+1] {
+			return fmt.Errorf("Levels not ordered: %d > %d", levelsArr[i], levelsArr[i+1])
+		}
+		items := uint64(levelsArr[i+1] - levelsArr[i])
+		if n>>i < items {
+			return fmt.Errorf("Retained items weigh more than n")
+		}
+		n -= items << i
+	}
+	if n != 0 {
+		return fmt.Errorf("Retained items weigh less than n")
+	}
+	return nil
+}
+
 func computeSketchBytes[C comparable](srcMem []byte, levelsArr []uint32, typeBytes int, serde common.ItemSketchSerde[C]) (int, error) {
 	numLevels := len(levelsArr) - 1
 	retainedItems := levelsArr[numLevels] - levelsArr[0]
diff --git a/kll/sketch_structure.go b/kll/sketch_structure.go
index 78a39c0..065c6d7 100644
--- a/kll/sketch_structure.go
+++ b/kll/sketch_structure.go
@@ -47,5 +47,5 @@ func getSketchStructure(preInts, serVer int) sketchStructure {
 			return _UPDATABLE
 		}
 	}
-	panic("Invalid preamble ints and serial version combo")
+	return sketchStructure{preInts, serVer}
 }
-- 
2.43.0


From a377077fd810a09a3abb89b9ee9a160f5ad80132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 47/59] fix: frequencies: decoding panicked, hung or allocated
 huge maps on truncated or corrupt images

---
 frequencies/items_sketch.go   | 25 ++++++++++++++++++-------
 frequencies/longs_sketch.go   | 31 ++++++++++++++++++++++++-------
 frequencies/preamble_utils.go |  9 +++++++++
 frequencies/utils.go          |  2 ++
 4 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 25ad597..15b2ef2 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -115,6 +115,9 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	}
 
 	pre0, err := checkPreambleSize(slc) //make sure preamble will fit
+	if err != nil {
+		return nil, err
+	}
 	maxPreLongs := internal.FamilyEnum.Frequency.MaxPreLongs
 
 	preLongs := extractPreLongs(pre0)                     //Byte 0
@@ -140,31 +143,39 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if empty && !preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
+	if err := checkMapSizes(lgMaxMapSize, lgCurMapSize); err != nil {
+		return nil, err
+	}
 	if empty {
 		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
+	if preLongsEq1 {
+		return nil, fmt.Errorf("possible corruption: preLongs must be %d for a non-empty sketch: %d", maxPreLongs, preLongs)
+	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
 	for j := 0; j < preLongs; j++ {
 		preArr[j] = int64(binary.LittleEndian.Uint64(slc[j<<3:]))
 	}
 
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + activeItems*8 // count Arr only
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
 	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
 	if err != nil {
 		return nil, err
 	}
+	if activeItems > fis.curMapCap {
+		return nil, fmt.Errorf("possible corruption: too many active items: %d, %d", activeItems, fis.curMapCap)
+	}
 	fis.streamWeight = 0 // update after
 	fis.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + activeItems*8 // count Arr only
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7a49479..a8c5323 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -127,30 +127,38 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if empty && !preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
+	if err := checkMapSizes(lgMaxMapSize, lgCurMapSize); err != nil {
+		return nil, err
+	}
 	if empty {
 		return NewLongsSketch(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	}
+	if preLongsEq1 {
+		return nil, fmt.Errorf("possible Corruption: preLongs must be %d for a non-empty sketch: %d", maxPreLongs, preLongs)
+	}
 	// get full preamble
 	preArr := make([]int64, preLongs)
 	for i := 0; i < preLongs; i++ {
 		preArr[i] = int64(binary.LittleEndian.Uint64(slc[i<<3:]))
 	}
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
 	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
 	if err != nil {
 		return nil, err
 	}
+	if activeItems > fls.curMapCap {
+		return nil, fmt.Errorf("possible Corruption: too many active items: %d, %d", activeItems, fls.curMapCap)
+	}
 	fls.streamWeight = 0 //update after
 	fls.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
@@ -241,6 +249,12 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 		return nil, fmt.Errorf("possible Corruption: Incorrect # of tokens: %d, numActive: %d", numTokens, numActive)
 	}
 	//    if ((2 * numActive) != (numTokens - STR_PREAMBLE_TOKENS - 2)) {
+	if lgCur < _LG_MIN_MAP_SIZE || !internal.IsPowerOf2(int(lgCurOrigin)) {
+		return nil, fmt.Errorf("possible Corruption: Bad map length: %d", lgCurOrigin)
+	}
+	if err := checkMapSizes(int(lgMax), lgCur); err != nil {
+		return nil, err
+	}
 	sk, err := NewLongsSketch(int(lgMax), int(lgCur))
 	if err != nil {
 		return nil, err
@@ -251,6 +265,9 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sk.hashMap.numActive > sk.curMapCap {
+		return nil, fmt.Errorf("possible Corruption: too many active items: %d, %d", sk.hashMap.numActive, sk.curMapCap)
+	}
 	return sk, nil
 }
 
diff --git a/frequencies/preamble_utils.go b/frequencies/preamble_utils.go
index 3a2b0fd..1e5dd82 100644
--- a/frequencies/preamble_utils.go
+++ b/frequencies/preamble_utils.go
@@ -20,6 +20,7 @@ package frequencies
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 )
 
 const (
@@ -53,6 +54,14 @@ func checkPreambleSize(preamble []byte) (int64, error) {
 	return pre0, nil
 }
 
+// checkMapSizes verifies that the declared map sizes are possible.
+func checkMapSizes(lgMaxMapSize, lgCurMapSize int) error {
+	if lgMaxMapSize > _LG_MAX_MAP_SIZE || lgCurMapSize > _LG_MAX_MAP_SIZE {
+		return fmt.Errorf("possible corruption: map sizes 2^%d, 2^%d", lgMaxMapSize, lgCurMapSize)
+	}
+	return nil
+}
+
 func insertPreLongs(preLongs, pre0 int64) int64 {
 	mask := int64(0x3F)
 	return (preLongs & mask) | (^mask & pre0)
diff --git a/frequencies/utils.go b/frequencies/utils.go
index b7d648d..5f25903 100644
--- a/frequencies/utils.go
+++ b/frequencies/utils.go
@@ -26,6 +26,8 @@ const (
 	// _LG_MIN_MAP_SIZE constant controle the size of the initial data structure for the
 	// frequencies sketches and its value is somewhat arbitrary.
 	_LG_MIN_MAP_SIZE = 3
+	// log2 of the largest map size accepted from serialized sketches
+	_LG_MAX_MAP_SIZE = 30
 	// _SAMPLE_SIZE constant is large enough so that computing the median of SAMPLE_SIZE
 	// randomly selected entries from a list of numbers and outputting
 	// the empirical median will give a constant-factor approximation to the
-- 
2.43.0


From 51cab8f8db9bde062784f339bb428ccf9cd9c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 48/59] fix: tdigest: stream decoding skipped checks and
 trusted declared counts with allocations, and reference images were read past
 their end or with invalid k and weights

---
 tdigest/double.go         |   2 +-
 tdigest/double_decoder.go | 124 +++++++++++++++++++++++++++-----------
 2 files changed, 90 insertions(+), 36 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index adaea42..208c600 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -188,7 +188,7 @@ func (d *Double) Update(value float64) error {
 		return ErrInfinity
 	}
 
-	if len(d.buffer) == d.centroidsCapacity*bufferMultiplier {
+	if len(d.buffer) >= d.centroidsCapacity*bufferMultiplier {
 		d.compress()
 	}
 	d.buffer = append(d.buffer, value)
diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..5dc98b3 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -32,8 +32,14 @@ var (
 	errPreambleMismatch      = errors.New("preamble longs mismatch")
 	errInsufficientData      = errors.New("insufficient data for deserialization")
 	errUnexpectedPreamble    = errors.New("unexpected sketch preamble")
+	errInvalidWeight         = errors.New("invalid centroid weight")
+	errWeightOverflow        = errors.New("total weight overflows")
 )
 
+// maxInitialCapacity limits what is allocated for a declared number of values
+// before they are read.
+const maxInitialCapacity = 1024
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -140,13 +146,14 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	// The counts are not trusted with an allocation: the slices grow as the values arrive.
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxInitialCapacity))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var meanBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &meanBytes); err != nil {
 			return nil, err
@@ -158,23 +165,24 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(mean, "centroid mean"); err != nil {
 			return nil, err
 		}
-		centroids[i].mean = mean
 
-		var weightBytes uint64
-		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
+		var weight uint64
+		if err := binary.Read(r, binary.LittleEndian, &weight); err != nil {
 			return nil, err
 		}
-		weight := math.Float64bits(math.Float64frombits(weightBytes))
 		if err := validateZero(float64(weight), "centroid weight"); err != nil {
 			return nil, err
 		}
 
-		centroids[i].weight = weight
+		centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
 		totalWeight += weight
+		if totalWeight < weight {
+			return nil, errWeightOverflow
+		}
 	}
 
-	buffer := make([]float64, numBuffered)
-	for i := range buffer {
+	buffer := make([]float64, 0, min(numBuffered, maxInitialCapacity))
+	for range numBuffered {
 		var dataBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &dataBytes); err != nil {
 			return nil, err
@@ -188,7 +196,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		buffer[i] = bufferedValue
+		buffer = append(buffer, bufferedValue)
 	}
 
 	return newDoubleFromInternalStates(reverseMerge, k, minVal, maxVal, centroids, totalWeight, buffer)
@@ -199,6 +207,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &typeFlag); err != nil {
 		return nil, err
 	}
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
 
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
@@ -223,22 +234,25 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 			return nil, err
 		}
-		k := uint16(math.Float64frombits(kBytes))
+		k, err := compatK(math.Float64frombits(kBytes))
+		if err != nil {
+			return nil, err
+		}
 
 		var numCentroids uint32
 		if err := binary.Read(r, binary.BigEndian, &numCentroids); err != nil {
 			return nil, err
 		}
 
-		centroids := make([]doublePrecisionCentroid, numCentroids)
+		centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxInitialCapacity))
 		var totalWeight uint64
-		for i := range centroids {
+		for range numCentroids {
 			var weightBytes uint64
 			if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 				return nil, err
 			}
-			weight := math.Float64frombits(weightBytes)
-			if err := validateZero(weight, "centroid weight"); err != nil {
+			weight, err := compatWeight(math.Float64frombits(weightBytes))
+			if err != nil {
 				return nil, err
 			}
 
@@ -254,8 +268,11 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
-			totalWeight += uint64(weight)
+			centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
+			totalWeight += weight
+			if totalWeight < weight {
+				return nil, errWeightOverflow
+			}
 		}
 
 		return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
@@ -283,7 +300,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 		return nil, err
 	}
-	k := uint16(math.Float32frombits(kBytes))
+	k, err := compatK(float64(math.Float32frombits(kBytes)))
+	if err != nil {
+		return nil, err
+	}
 
 	var unused uint32
 	if err := binary.Read(r, binary.BigEndian, &unused); err != nil {
@@ -302,8 +322,8 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 			return nil, err
 		}
-		weight := math.Float32frombits(weightBytes)
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		weight, err := compatWeight(float64(math.Float32frombits(weightBytes)))
+		if err != nil {
 			return nil, err
 		}
 
@@ -315,12 +335,15 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
-		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)}
-		totalWeight += uint64(weight)
+		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: weight}
+		totalWeight += weight
+		if totalWeight < weight {
+			return nil, errWeightOverflow
+		}
 	}
 
 	return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
@@ -439,6 +462,9 @@ func DecodeDouble(data []byte) (*Double, error) {
 
 		centroids[i].weight = weight
 		totalWeight += weight
+		if totalWeight < weight {
+			return nil, errWeightOverflow
+		}
 	}
 
 	buffer := make([]float64, numBuffered)
@@ -489,7 +515,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		}
 
 		kDouble := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
-		k := uint16(kDouble)
+		k, err := compatK(kDouble)
+		if err != nil {
+			return nil, err
+		}
 		offset += 8
 
 		numCentroids := binary.BigEndian.Uint32(data[offset:])
@@ -502,9 +531,9 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		centroids := make([]doublePrecisionCentroid, numCentroids)
 		var totalWeight uint64
 		for i := range centroids {
-			weight := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
+			weight, err := compatWeight(math.Float64frombits(binary.BigEndian.Uint64(data[offset:])))
 			offset += 8
-			if err := validateZero(float64(weight), "centroid weight"); err != nil {
+			if err != nil {
 				return nil, err
 			}
 
@@ -517,15 +546,18 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
-			totalWeight += uint64(weight)
+			centroids[i] = doublePrecisionCentroid{mean: mean, weight: weight}
+			totalWeight += weight
+			if totalWeight < weight {
+				return nil, errWeightOverflow
+			}
 		}
 
 		return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
 		return nil, errInsufficientData
 	}
 
@@ -542,7 +574,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	kFloat := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
-	k := uint16(kFloat)
+	k, err := compatK(float64(kFloat))
+	if err != nil {
+		return nil, err
+	}
 	offset += 4
 
 	offset += 4 // unused
@@ -557,9 +592,9 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	centroids := make([]doublePrecisionCentroid, numCentroids)
 	var totalWeight uint64
 	for i := range centroids {
-		weight := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
+		weight, err := compatWeight(float64(math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))))
 		offset += 4
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err != nil {
 			return nil, err
 		}
 
@@ -572,13 +607,32 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)}
-		totalWeight += uint64(weight)
+		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: weight}
+		totalWeight += weight
+		if totalWeight < weight {
+			return nil, errWeightOverflow
+		}
 	}
 
 	return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
 }
 
+// compatK returns the compression of a reference image as k.
+func compatK(compression float64) (uint16, error) {
+	if !(compression >= 10 && compression <= math.MaxUint16) { // also refuses NaN
+		return 0, ErrInvalidK
+	}
+	return uint16(compression), nil
+}
+
+// compatWeight returns the weight of a centroid of a reference image.
+func compatWeight(weight float64) (uint64, error) {
+	if !(weight >= 1 && weight < 1<<63) { // also refuses NaN
+		return 0, errInvalidWeight
+	}
+	return uint64(weight), nil
+}
+
 func validateNaN(v float64, name string) error {
 	if math.IsNaN(v) {
 		return errors.New(name + ": NaN")
-- 
2.43.0


From 7e1ba1ea7f52f5d7c66ca1d1f410560679066b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 49/59] fix: cpc, theta, tuple: hashing 32-bit integer slices
 ignored every other integer and sign-extended negative ones

---
 internal/murmur3.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..cf0ef26 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := getUint64FromInts(key, offsetInts+(i<<2), 2)   //offsetInts + 0, 4, 8, ...
+		k2 := getUint64FromInts(key, offsetInts+(i<<2)+2, 2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,11 +84,11 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
-		k2 = uint64(key[offsetInts+tail+2])
+		k1 = getUint64FromInts(key, offsetInts+tail, 2) //k1 -> whole; k2 -> partial
+		k2 = getUint64FromInts(key, offsetInts+tail+2, rem-2)
 	} else {
 		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
+			k1 = getUint64FromInts(key, offsetInts+tail, rem) //k1 -> whole(2), partial(1) or 0; k2 == 0
 		}
 	}
 
@@ -166,6 +166,15 @@ func getUint64(bArr []byte, index int, rem int) uint64 {
 	return out
 }
 
+// getUint64FromInts packs rem (1 or 2) ints starting at index, the first one lowest.
+func getUint64FromInts(arr []int32, index int, rem int) uint64 {
+	var out uint64
+	for i := rem - 1; i >= 0; i-- {
+		out = out<<32 | uint64(uint32(arr[index+i]))
+	}
+	return out
+}
+
 func mixK1(k1 uint64) uint64 {
 	k1 *= C1
 	k1 = (k1 << 31) | (k1 >> (64 - 31))
-- 
2.43.0


From 762ffd1735151bfd314b68c766c7637dc28dc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 50/59] fix: cpc: GetBitMatrix exposed the union's own matrix

---
 cpc/cpc_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..9785eeb 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -351,7 +351,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return append([]uint64(nil), u.bitMatrix...), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From 672886057fed4f15dd4b594b73fce31f1e83d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 51/59] fix: tuple: ArrayOfStringsSummary kept the caller's
 slice

---
 tuple/arrayofstrings_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index b44e734..a6a9313 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -73,7 +73,7 @@ func (s *ArrayOfStringsSummary) Clone() Summary {
 
 // Update incorporates a new string value into the summary.
 func (s *ArrayOfStringsSummary) Update(values []string) {
-	s.values = values
+	s.values = append([]string{}, values...)
 }
 
 // ArrayOfStringsSummaryWriter writes an ArrayOfStringsSummary to the provided io.Writer in binary format.
-- 
2.43.0


From e7750f727658dd9de742029ff51a02c73406aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 52/59] fix: kll: merging a sketch with itself did not conserve
 the weight

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index dfc769c..dd523b8 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -756,7 +756,7 @@ func (s *ItemsSketch[C]) mergeItemsSketch(other *ItemsSketch[C]) {
 
 	// buffers that are referenced multiple times
 	otherNumLevels := other.numLevels
-	otherLevelsArr := other.levels
+	otherLevelsArr := other.getLevelsArray() // a copy: other may be s itself
 	var otherItemsArr []C
 
 	// MERGE: update this sketch with level0 items from the other sketch
-- 
2.43.0


From 9df06e50660a6fc47cb2fead9b7dc27ec21783d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 53/59] fix: sampling: a reservoir union refused a merge beyond
 the maximum of items seen only after changing its count and samples

---
 sampling/reservoir_items_union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index ef28e96..072adea 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -175,6 +175,11 @@ func (u *ReservoirItemsUnion[T]) createNewGadget(
 func (u *ReservoirItemsUnion[T]) twoWayMergeInternal(
 	source *ReservoirItemsSketch[T], isModifiable bool,
 ) error {
+	// refuse before anything changes
+	if source.N() > maxItemsSeen-u.gadget.N() {
+		return ErrSketchExceedsMaxCapacity
+	}
+
 	if source.N() <= int64(source.K()) {
 		if err := u.twoWayMergeInternalStandard(source); err != nil {
 			return err
-- 
2.43.0


From 4f6e2dd828db5b08a180ce5e884c02f696ffa92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 54/59] fix: sampling: a reservoir union accepted raw
 components with more items seen than an image may hold

---
 sampling/reservoir_items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 8842dd8..23802c1 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -488,6 +488,9 @@ func newReservoirItemsSketchFromStates[T any](
 	if (n >= int64(k) && len(items) < k) || (n < int64(k) && int64(len(items)) < n) {
 		return nil, fmt.Errorf("sketch with too few items. items seen: %d, max size: %d, current items count: %d", n, k, len(items))
 	}
+	if n > maxItemsSeen {
+		return nil, ErrSketchExceedsMaxCapacity
+	}
 
 	return &ReservoirItemsSketch[T]{
 		k:    k,
-- 
2.43.0


From 1e37617ae7bf5e5d6e7936336523cfec18c943ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 55/59] fix: theta, tuple: a sampling probability of NaN was
 accepted

---
 theta/union.go                        | 2 +-
 theta/update_sketch.go                | 2 +-
 tuple/arrayofnumbers_union.go         | 2 +-
 tuple/arrayofnumbers_update_sketch.go | 2 +-
 tuple/union.go                        | 2 +-
 tuple/update_sketch.go                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b501639..add6805 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -93,7 +93,7 @@ func NewUnion(opts ...UnionOptionFunc) (*Union, error) {
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also refuses NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/theta/update_sketch.go b/theta/update_sketch.go
index 03a4028..ef2a396 100644
--- a/theta/update_sketch.go
+++ b/theta/update_sketch.go
@@ -100,7 +100,7 @@ func NewQuickSelectUpdateSketch(opts ...UpdateSketchOptionFunc) (*QuickSelectUpd
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also refuses NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 12f176f..b3e95fe 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -57,7 +57,7 @@ func NewArrayOfNumbersSketchUnion[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also refuses NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_update_sketch.go b/tuple/arrayofnumbers_update_sketch.go
index edb7df0..ac48e36 100644
--- a/tuple/arrayofnumbers_update_sketch.go
+++ b/tuple/arrayofnumbers_update_sketch.go
@@ -56,7 +56,7 @@ func NewArrayOfNumbersUpdateSketch[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also refuses NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/union.go b/tuple/union.go
index 813cb86..ab792b1 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -51,7 +51,7 @@ func (o *unionOptions) Validate() error {
 	if o.lgK > theta.MaxLgK {
 		return fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, o.lgK)
 	}
-	if o.p <= 0 || o.p > 1 {
+	if !(o.p > 0 && o.p <= 1) { // also refuses NaN
 		return errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/update_sketch.go b/tuple/update_sketch.go
index 5a70201..84452f3 100644
--- a/tuple/update_sketch.go
+++ b/tuple/update_sketch.go
@@ -111,7 +111,7 @@ func NewUpdateSketch[S UpdatableSummary[V], V any](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also refuses NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
-- 
2.43.0


From 1903cd51d38864dcf54295d1c186bdf5b4c3dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 56/59] fix: count: sizing suggestions overflowed for tiny and
 NaN arguments

---
 count/utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/count/utils.go b/count/utils.go
index 4af4c30..b2c4b8c 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -26,14 +26,18 @@ import (
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
-	if relativeError <= 0 {
+	if !(relativeError > 0) { // also refuses NaN
 		return 0, errors.New("relative error must be greater than 0.0")
 	}
-	return int32(math.Ceil(math.Exp(1.0) / relativeError)), nil
+	numBuckets := math.Ceil(math.Exp(1.0) / relativeError)
+	if numBuckets > math.MaxInt32 {
+		return 0, errors.New("relative error is too small")
+	}
+	return int32(numBuckets), nil
 }
 
 func SuggestNumHashes(confidence float64) (int8, error) {
-	if confidence < 0 || confidence > 1.0 {
+	if !(confidence >= 0 && confidence <= 1.0) { // also refuses NaN
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
 	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
-- 
2.43.0


From c551b5426e9e54427b95c5a5d5cc28219fb28b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:09 +0000
Subject: [PATCH 57/59] fix: sampling: a reservoir accepted a k that its image
 cannot hold

---
 sampling/reservoir_items_sketch.go | 4 ++++
 sampling/reservoir_items_union.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 23802c1..816e560 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"math/rand"
 	"slices"
 	"strings"
@@ -75,6 +76,9 @@ func NewReservoirItemsSketch[T any](
 	if k < minK {
 		return nil, errors.New("k must be at least 2")
 	}
+	if k > math.MaxInt32 {
+		return nil, fmt.Errorf("k must not be greater than %d", math.MaxInt32)
+	}
 
 	options := &reservoirItemsSketchOptions{
 		resizeFactor: defaultResizeFactor,
diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 072adea..bcd3954 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"math/rand"
 	"strings"
 
@@ -53,6 +54,9 @@ func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
 	if maxK < minK {
 		return nil, errors.New("max k must be at least 2")
 	}
+	if maxK > math.MaxInt32 {
+		return nil, fmt.Errorf("max k must not be greater than %d", math.MaxInt32)
+	}
 
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
-- 
2.43.0


From deef17bbfd4cb0281611e4f6e4f798551426e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 58/59] fix: sampling: a VarOpt union accepted a maximum k
 beyond the signed range

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 5ee38c3..dc06f50 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -127,7 +127,7 @@ func NewVarOptItemsSketch[T any](k uint, opts ...VarOptOption) (*VarOptItemsSket
 func newVarOptItemsSketchFromState[T any](
 	k int, rf ResizeFactor, isGadget bool,
 ) (*VarOptItemsSketch[T], error) {
-	if k == 0 || k > varOptMaxK {
+	if k < 1 || k > varOptMaxK {
 		return nil, errors.New("k must be at least 1 and less than 2^31 - 1")
 	}
 
-- 
2.43.0


From d7d49958ecfb70bfa15d30f76827fd6ef3f4d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:14 +0000
Subject: [PATCH 59/59] fix: kll, req: the quantile of a NaN rank was answered
 with the minimum

---
 internal/quantiles/utils.go | 2 +-
 kll/items_sketch.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/quantiles/utils.go b/internal/quantiles/utils.go
index 0f28254..fe8085f 100644
--- a/internal/quantiles/utils.go
+++ b/internal/quantiles/utils.go
@@ -47,7 +47,7 @@ func ValidateSplitPoints[N Number](values []N) error {
 }
 
 func ValidateNormalizedRankBounds(rank float64) error {
-	if rank < 0 || rank > 1 {
+	if !(rank >= 0 && rank <= 1) { // also refuses NaN
 		return errors.New("rank must be between 0 and 1 inclusive")
 	}
 	return nil
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index dd523b8..74d4f32 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -294,7 +294,7 @@ func (s *ItemsSketch[C]) GetQuantile(rank float64, inclusive bool) (C, error) {
 	if s.IsEmpty() {
 		return *new(C), fmt.Errorf("operation is undefined for an empty sketch")
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) { // also refuses NaN
 		return *new(C), fmt.Errorf("normalized rank cannot be less than zero or greater than 1.0: %f", rank)
 	}
 	err := s.setupSortedView()
-- 
2.43.0

