#!/usr/bin/env python3
"""Source of properties.jsonl. Run: python3 tools/gen_properties.py (writes ../properties.jsonl)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- theta
p("T01", "Theta sketch retains exactly the seen hashes below its threshold",
  "After any sequence of updates, trims and resets, a theta update sketch retains exactly the set of distinct non-zero item hashes fed since the last reset that are below its current theta; theta never rises except on reset, is either the configured starting probability or the hash of a seen item, and the sketch never drops below k retained entries because of its own rebuilding. "
  "Until the distinct count reaches the capacity of the sketch it stays exact, feeding an item again never changes the state, and the error returned by an update says exactly whether the item was a duplicate or above theta.",
  ["inputs", "histories", "configurations"],
  "every update history (any item type, duplicates, order, trims, resets), every lgK 5..26, resize factor, sampling probability and seed",
  "Unit tests feed 0..n-1 for a few n and look at estimates within a margin; a retained set that is slightly wrong (a lost entry at a resize, a theta off by one, a duplicate stored twice) is invisible to them.",
  ["theta/update_sketch.go", "theta/hashtable.go", "internal/quick_select.go"],
  [("hash table insert/resize/rebuild with quick select", "theta/hashtable.go"), ("update paths", "theta/update_sketch.go")],
  observe=["All()", "Theta64()", "NumRetained()", "update return values"])
p("T02", "Theta estimates and bounds are consistent and honest",
  "Every theta sketch form reports the retained count divided by theta as its estimate (exactly the number of distinct items in exact mode), and for 1, 2 and 3 standard deviations lower bound <= estimate <= upper bound, widening with the number of deviations, with the lower bound never below the retained count and all three equal in exact mode. "
  "Over independent streams the true distinct count falls inside the bounds at least as often as a generous slack on the stated confidence allows, and in estimation mode any other number of standard deviations is refused with an error.",
  ["inputs", "configurations"],
  "every stream, lgK, sampling probability, seed, sketch form (update, compact, decoded, wrapped, set-operation result)",
  "Tests check a handful of cardinalities with hard-coded margins; the bounds formulae have several regimes (tiny counts, table range, large counts, theta near 0 or 1) that those few points do not reach.",
  ["theta/update_sketch.go", "theta/compact_sketch.go", "internal/binomialbounds/binomialbounds.go"],
  [("binomial bounds", "internal/binomialbounds")], observe=["Estimate()", "LowerBound()", "UpperBound()"])
p("T03", "Theta union, intersection and difference are exact on the hash samples",
  "The result of a theta union, intersection or difference over any sketches contains exactly the hashes that set algebra on the inputs' retained hashes below the result's theta prescribes; for intersection and difference that theta is the minimum over the non-empty inputs involved, and for a union it is that minimum unless the union exceeds its nominal size, when it keeps exactly the k smallest hashes and theta is the next one. "
  "The outcome does not depend on input order or grouping (except that an intersection which exact inputs alone prove empty is reported as empty) or on whether an input is given as an update, compact, decoded or wrapped sketch, emptiness is tracked exactly, inputs are not modified, and inputs built with a different seed are refused.",
  ["inputs", "histories", "configurations"],
  "every collection, order and form of input sketches, including empty, degenerate (no entries but theta < 1), exact, estimating, ordered and unordered ones",
  "Tests use a few disjoint/overlapping ranges and check estimates with a margin; early-stop, table-growth and corner-case branches combine with sketch state in ways they do not enumerate.",
  ["theta/union.go", "theta/intersection.go", "theta/a_not_b.go"],
  [("union update/result", "theta/union.go"), ("intersection update", "theta/intersection.go"), ("difference", "theta/a_not_b.go")],
  observe=["Result()", "HasResult()"])
p("T04", "Theta serialization is lossless in every format",
  "Encoding any compact theta sketch, compressed or not, and decoding it (from bytes, from a stream, or by wrapping the bytes) gives a sketch with the same hashes in the same order, theta, emptiness, ordering and seed hash; the predicted serialized size equals the number of bytes produced and stays within the advertised maximum. "
  "Decoding with another seed fails, and the older format versions decode to the same content.",
  ["inputs", "configurations"],
  "every set of hashes (any delta bit width 1..63, any count including multiples of the packing block), theta, seed, ordered or not, compressed or not",
  "Tests serialize a few sizes; bit packing has 63 widths times a block remainder, each with its own code path.",
  ["theta/encoder.go", "theta/decoder.go", "theta/compact_sketch.go", "theta/wrapped_compact_sketch.go", "theta/bit_packing.go"],
  [("block and single-entry bit packing", "theta/bit_packing.go"), ("preamble layout", "theta/encoder.go")],
  observe=["MarshalBinary()", "Encoder", "Decode()", "WrapCompactSketch()"])
p("T05", "Theta Jaccard similarity brackets the true sample similarity",
  "Jaccard similarity of two theta sketches always satisfies 0 <= lower <= estimate <= upper <= 1, is symmetric, equals the exact index |A∩B|/|A∪B| with equal bounds when both sketches are exact, equals 1 for a sketch with itself or an exact copy of it, and 0 when disjoint or exactly one side is empty. "
  "The exact-equality, similarity and dissimilarity tests agree with it and none of them changes its arguments.",
  ["inputs", "configurations"], "every pair of sketches of any size ratio, overlap, lgK and form",
  "Tests cover three overlaps at one size.",
  ["theta/jaccard_similarity.go", "internal/binomialproportionsbounds/binomialproportionsbounds.go"],
  [("union + two intersections", "theta/jaccard_similarity.go")])
# ---------------------------------------------------------------- tuple
p("U01", "Tuple sketch summaries fold exactly the values of their key",
  "A tuple sketch retains the keys a theta sketch with the same configuration would retain for the same key stream, and each retained key's summary is the fold, in stream order, of exactly the values supplied for that key since it was last admitted, for every retained key, so it reports the same estimate and bounds as that theta sketch. "
  "Trimming, compacting, filtering and reset act on (key, summary) pairs consistently, and a compacted copy does not change when the source is updated later.",
  ["inputs", "histories", "configurations"], "every history of keyed updates (generic summaries and arrays of numbers), any lgK, sampling probability, resize factor and seed",
  "Tests look at a summary or two; a summary attached to the wrong key after a resize or rebuild shows only when every pair is compared.",
  ["tuple/update_sketch.go", "tuple/hashtable.go", "tuple/compact_sketch.go", "tuple/arrayofnumbers_update_sketch.go"],
  [("pairwise moves on resize/rebuild", "tuple/hashtable.go")], observe=["All()"])
p("U02", "Tuple set operations combine summaries exactly and leave inputs intact",
  "Tuple union, intersection and difference retain the same keys and theta as the theta operations would, and each surviving summary is the policy applied over exactly the matching inputs' summaries in update order (difference keeps the first input's summary); similarity and the equality, similar and dissimilar tests equal those of theta sketches with the same keys. "
  "Running an operation, resetting it or changing its result never changes any input sketch, and changing an input afterwards never changes a result.",
  ["inputs", "histories", "configurations"], "every sequence of input sketches in any form and order, with and without overlaps, for generic summaries and arrays of numbers, also against plain theta sketches",
  "Tests check sums on a few overlaps and never look at the inputs again afterwards.",
  ["tuple/union.go", "tuple/intersection.go", "tuple/a_not_b.go", "tuple/arrayofnumbers_union.go", "tuple/arrayofnumbers_intersection.go", "tuple/arrayofnumbers_a_not_b.go"],
  [("policy application", "tuple/union.go, tuple/intersection.go")])
p("U03", "Tuple serialization is lossless for every summary type",
  "Encoding and decoding any compact tuple sketch (generic summaries, arrays of numbers of any fixed width, arrays of strings) preserves every (key, summary) pair, order, theta, emptiness, seed hash and the number of values per key. "
  "Decoding with another seed or as a different sketch type is refused.",
  ["inputs", "configurations"], "every retained set, value count 1..255, value bit pattern (NaN, infinities, negative zero), and string content",
  "Tests round trip a few sketches with small values.",
  ["tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofnumbers_sketch_encoder.go", "tuple/arrayofnumbers_sketch_decoder.go", "tuple/arrayofstrings_sketch.go"],
  [("entry stream", "tuple/encoder.go")])
# ---------------------------------------------------------------- hll
p("H01", "HLL sketches are a pure function of the set of items, in every form",
  "The content of an HLL sketch depends only on the set of distinct items fed, not on their order or repetition: the serialized content decodes to exactly the coupons of the stream (list and set forms) or to the maximum observed value per bucket (register form), identically for the 4-, 6- and 8-bit targets. "
  "Copying to any target type preserves that content and the estimate, and a reset sketch behaves as a new one.",
  ["inputs", "histories", "configurations"], "every stream, lgK 4..21, target type, including skewed values that need exceptions and global offset shifts",
  "Tests compare estimates of counted ranges; an entry lost at a list/set/array promotion, an offset shift or an exception-table resize rarely moves the estimate outside their margins.",
  ["hll/hll_sketch.go", "hll/coupon_list.go", "hll/coupon_hash_set.go", "hll/hll_4update.go", "hll/hll_4array.go", "hll/hll_6array.go", "hll/hll_8array.go", "hll/aux_hash_map.go"],
  [("coupon promotion", "hll/coupon_list.go, hll/coupon_hash_set.go"), ("4-bit offset shift", "hll/hll_4update.go")],
  observe=["ToCompactSlice()", "ToUpdatableSlice()", "CopyAs()"])
p("H02", "HLL union equals the sketch of the concatenated streams",
  "Merging any HLL sketches, of any target types, modes and sizes, or raw items, into a union gives exactly the bucket maxima (or coupon set) that one sketch of the union's lgK (its limit, lowered to the smallest lgK among the inputs already in register form) would have for the concatenation of all inputs' streams, regardless of merge order. "
  "Its estimate and bounds follow from that state at any time they are read, results come out in any target type with the same content, and no input is modified.",
  ["inputs", "histories", "configurations"], "every sequence of source sketches (lgK, type, mode, out-of-order or not) and union lgK limit",
  "Tests merge a few pairs and check estimates within a margin; the merge code has a branch per pair of modes, types and relative sizes.",
  ["hll/union.go", "hll/hll_8array.go", "hll/hll_array.go"],
  [("union dispatch", "hll/union.go")], observe=["union result", "estimate"])
p("H03", "HLL serialization round trips in compact and updatable form",
  "Serializing any HLL sketch, compactly or updatably, and reading it back preserves content, estimate, composite estimate, bounds, target type, lgK and emptiness, and the copy evolves exactly as the original under further updates. "
  "The stated serialized sizes equal the bytes produced, and the decoded sketch is independent of the byte buffer.",
  ["inputs", "histories", "configurations"], "every reachable sketch state (empty, list, set, array of each type, with exceptions, out of order), followed by any further updates",
  "Tests round trip a few sizes and compare estimates; they do not continue the stream on the copy.",
  ["hll/to_slice_impl.go", "hll/preamble_utils.go", "hll/hll_array.go", "hll/coupon_list.go", "hll/coupon_hash_set.go"],
  [("preamble encode/decode", "hll/to_slice_impl.go")])
p("H04", "HLL estimates and bounds bracket the distinct count",
  "For 1, 2 and 3 standard deviations an HLL sketch or union reports lower bound <= estimate <= upper bound, widening with the number of deviations, and small streams (still stored as coupons) are estimated almost exactly. "
  "A coupon-mode estimate is the number of items for which that many distinct coupons are expected, and a merged (out-of-order) sketch estimates the number of items for which its register values are expected. "
  "Bounds keep the published distance from the estimate for that configuration, and over independent streams the relative error stays within a generous multiple of the advertised relative standard error.",
  ["inputs", "configurations"], "every stream, lgK, target type, in-order and merged sketches, every region of the correction tables",
  "Tests check a few cardinalities.",
  ["hll/hll_estimator.go", "hll/hll_array.go", "hll/relative_error_tables.go"],
  [("HIP and composite estimators", "hll/hll_estimator.go, hll/hll_array.go")])
# ---------------------------------------------------------------- cpc
p("C01", "CPC sketch and union hold exactly the observed coupons",
  "A CPC sketch's coupon matrix (as exposed through a union of the same size) contains exactly the (row, column) coupons of the items fed, independent of order and repetition, and a union's matrix is exactly the union of its inputs' matrices folded to the smallest lgK involved, whatever the flavors, order and sizes of the inputs. "
  "Inputs are not modified, a union result merged again gives the same matrix, and sketches with another seed are refused.",
  ["inputs", "histories", "configurations"], "every stream and merge history, lgK 4..26, including streams whose hashes are concentrated in few rows or unusual columns",
  "Tests compare counts on uniformly hashed counters; window shifts, table growth and shrinkage and folding depend on rare coupon patterns.",
  ["cpc/cpc_sketch.go", "cpc/cpc_union.go", "cpc/pair_table.go"],
  [("windowed update and offset moves", "cpc/cpc_sketch.go"), ("pair table", "cpc/pair_table.go"), ("union state machine", "cpc/cpc_union.go")],
  observe=["CpcUnion.GetBitMatrix()"])
p("C02", "CPC compression is lossless for every sketch state",
  "Serializing a CPC sketch always succeeds, decoding it with the same seed gives a sketch with the same coupons, estimate, bounds and future behaviour whose own serialization is byte-identical, and the read-only wrapper over the bytes reports the same numbers. "
  "Decoding with a different seed is refused.",
  ["inputs", "histories", "configurations"], "every reachable sketch state: all flavors, window offsets 0..56, with and without surprising values, merged or not, including coupon patterns that are far from uniform",
  "Tests compress uniformly hashed counters of a few sizes.",
  ["cpc/cpc_compressed_state.go", "cpc/cpc_wrapper.go", "cpc/utils.go", "cpc/compression_data.go"],
  [("window and pair compression", "cpc/cpc_compressed_state.go")])
p("C03", "CPC estimates and bounds bracket the distinct count",
  "A CPC sketch's lower bound never exceeds its estimate, which never exceeds its upper bound, the interval widens with kappa 1..3, the lower bound is at least the number of coupons held, and streaming estimates never decrease as items are added. "
  "A merged sketch estimates the number of items for which its number of coupons is expected, and bounds keep the published distance from the estimate. "
  "Over independent streams the relative error of streamed and merged sketches stays within a generous multiple of the advertised standard error.",
  ["inputs", "configurations"], "every stream, lgK and merge history, every lgK of the coefficient tables", "Tests check a few points.",
  ["cpc/confidence.go", "cpc/icon_estimator.go", "cpc/cpc_sketch.go"],
  [("ICON and HIP estimators", "cpc/icon_estimator.go, cpc/cpc_sketch.go")])
# ---------------------------------------------------------------- quantiles
p("K01", "KLL conserves weight, minimum, maximum and membership",
  "After any sequence of updates and merges a KLL sketch reports N equal to the number of accepted items, the exact minimum and maximum, retained items that were all fed, and item weights that are powers of two summing to N; while N is small enough that nothing was discarded it returns every item exactly. "
  "Merging behaves this way for any combination of sizes, k and self-similar states, leaves the argument unchanged, and reset returns to the empty state.",
  ["inputs", "histories", "configurations"], "every item type, order, duplicates, k, m and merge tree, including many merges that raise the number of levels",
  "Tests check N, min and max on counters and one or two merges; weight leaks at particular level shapes need many shapes to see.",
  ["kll/items_sketch.go"],
  [("compression and level growth", "kll/items_sketch.go"), ("general compression on merge", "kll/items_sketch.go")],
  observe=["GetN()", "GetIterator()", "GetMinItem()", "GetMaxItem()"])
p("K02", "KLL rank, quantile, CDF and PMF answers are mutually consistent and stable",
  "For any KLL sketch, rank and CDF answers equal the weighted count over the retained items, are monotone and reach 0 and 1 at the ends, quantile is the matching generalized inverse for both search criteria, PMF is the difference of CDF and sums to 1, and partition boundaries split the stream consistently with it; ranks outside [0, 1], NaN among them, and split points out of order are refused. "
  "Asking any query, in any order, never changes the answer of a later query.",
  ["inputs", "histories", "configurations"], "every sketch, query point, rank, split-point list and interleaving of queries",
  "Tests query one function at a time on fresh sketches with counters.",
  ["kll/items_sketch.go", "kll/items_sketch_sorted_view.go", "common/quantiles", "internal/inequality_search.go"],
  [("sorted view", "kll/items_sketch_sorted_view.go"), ("inequality search", "internal/inequality_search.go")])
p("K03", "KLL rank error stays within the advertised error",
  "For streams in any order (random, sorted, reversed, adversarially blocked, merged from parts) the error of KLL rank estimates stays within a generous multiple of the advertised normalized rank error, and retained size stays within the advertised maximum. "
  "A sketch that takes in another which has already discarded items advertises at least the error that one advertised, also through bytes and chains of merges.",
  ["inputs", "histories", "configurations"], "every stream order, k and merge tree", "Tests check sorted counters.",
  ["kll/items_sketch.go"], [("randomized compaction", "kll/items_sketch.go")])
p("K04", "KLL serialization round trips for every item type",
  "Serializing any KLL sketch and reading it back gives a sketch with the same N, k, minimum, maximum, retained items and weights and therefore the same answers, for every supported item type and any item values, and the advertised serialized size equals the bytes produced. "
  "The copy accepts further updates and merges exactly as a valid sketch does.",
  ["inputs", "histories", "configurations"], "every reachable sketch state and item value, including empty strings, NaN-free floats, and large level counts after repeated merging",
  "Tests serialize a few counter streams.",
  ["kll/items_sketch.go", "common/item_sketch_string.go"],
  [("preamble and level array layout", "kll/items_sketch.go")])
p("R01", "REQ conserves weight, minimum, maximum and membership",
  "After any sequence of updates and merges a REQ sketch reports N equal to the number of accepted items (NaN ignored), the exact minimum and maximum, retained items that were all fed, and weights summing to N, with the three k most extreme items at the accurate end of the distribution (for the smallest k merged) kept exactly. "
  "Merging refuses mismatched accuracy modes, leaves its argument unchanged and otherwise behaves this way for any sizes, and reset returns to the empty state.",
  ["inputs", "histories", "configurations"], "every stream, k, accuracy mode and merge tree", "Tests check counters and one or two merges.",
  ["req/sketch.go", "req/compactor.go"], [("relative compaction", "req/compactor.go")])
p("R02", "REQ rank, quantile, CDF and PMF answers are mutually consistent",
  "For any REQ sketch, rank and CDF answers equal the weighted count over the retained items, are monotone, quantile is the matching generalized inverse for both search criteria, PMF sums to 1, and rank and quantile lower and upper bounds are defined for every finite item and every rank and bracket the estimate; ranks outside [0, 1], NaN among them, NaN items and split points out of order are refused. "
  "Asking any query never changes the answer of a later query.",
  ["inputs", "histories", "configurations"], "every sketch, query point, rank, split-point list and interleaving of queries", "Tests query one function at a time on counters.",
  ["req/sketch.go", "req/compactor.go"], [("sorted view", "req")])
p("R03", "REQ rank error shrinks toward the accurate end as advertised",
  "For streams in any order and merge tree the error of REQ rank estimates stays within a generous multiple of its advertised relative error at every rank, being exact near the accurate end. "
  "Its retained size stays small relative to the stream.",
  ["inputs", "histories", "configurations"], "every stream order, k, mode and merge tree", "Tests check counters.",
  ["req/sketch.go", "req/compactor.go"], [("relative compaction schedule", "req/compactor.go")])
p("D01", "t-digest conserves weight and extremes and answers monotonically",
  "After any sequence of updates and merges a t-digest reports a total weight equal to the number of accepted values and their exact minimum and maximum, rejects NaN and infinities, and its rank is monotone from 0 to 1, its quantiles are monotone within [minimum, maximum], and CDF and PMF agree with rank. "
  "Rank error stays small everywhere and tiny at the tails, and queries or merging into another digest never change the answers of the queried or merged one.",
  ["inputs", "histories", "configurations"], "every stream, k and merge tree", "Tests check counters with a margin.",
  ["tdigest/double.go"], [("centroid merging", "tdigest/double.go")])
p("D02", "t-digest serialization round trips",
  "Serializing any t-digest, with or without its buffer, to bytes or to a stream produces identical bytes of the advertised size, and decoding them by either route gives a digest with the same weight, minimum, maximum and answers that evolves exactly as the original under further updates (for a single value: as a digest of the same stream). Images of the reference t-digest library decode to digests with the same promises; those with a compression no digest can have are refused.",
  ["inputs", "histories", "configurations"], "every reachable digest state (empty, single value, buffered, compressed, merged)", "Tests round trip a few sizes.",
  ["tdigest/double_encoder.go", "tdigest/double_decoder.go"], [("encoder/decoder", "tdigest")])
# ---------------------------------------------------------------- frequencies
p("F01", "Frequent-items bounds always contain the true frequency",
  "For every item of any weighted stream, and after any merges, a frequent-items sketch reports lower bound <= true frequency <= upper bound with upper minus lower never exceeding its maximum error, its stream length is the exact total weight, and the maximum error stays within the advertised a-priori fraction of it. "
  "The estimate of an item with a positive lower bound is its upper bound, and an items sketch estimates zero for an item it does not track. Until the number of distinct items reaches the map capacity all frequencies are exact.",
  ["inputs", "histories", "configurations"], "every weighted stream and merge tree, map size, item type", "Tests use short streams with a few heavy items.",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/reverse_purge_long_hash_map.go", "frequencies/reverse_purge_item_hash_map.go"],
  [("purge by sampled median", "frequencies/reverse_purge_*_hash_map.go"), ("offset accumulation", "frequencies/*_sketch.go")])
p("F02", "Frequent-item reports have no false positives / no false negatives",
  "In the no-false-negatives mode every item whose true frequency exceeds the threshold is reported, and in the no-false-positives mode every reported item's true frequency is at least the threshold (each raised to the maximum error when lower). "
  "Rows carry the same estimate and bounds as individual queries, are sorted by descending estimate and contain no duplicates.",
  ["inputs", "histories", "configurations"], "every weighted stream, merge tree, threshold and item type", "Tests use a few heavy items.",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go"], [("row selection", "frequencies/*_sketch.go")])
p("F03", "Frequent-items serialization preserves every answer",
  "Serializing a frequent-items sketch (to bytes, or to its string form where offered) and reading it back preserves stream length, maximum error, every active item's estimate and bounds, and the ability to continue and merge, in every state including one whose items were all purged.",
  ["inputs", "histories", "configurations"], "every reachable state, weights up to 2^62, negative keys, arbitrary strings", "Tests round trip small sketches with positive keys.",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/preamble_utils.go"], [("serialization", "frequencies")])
p("M01", "Count-Min never underestimates and merges additively",
  "For any stream of non-negative weights, and after merging sketches of the same configuration, a Count-Min sketch's estimate and upper bound for every item are at least its true total, its lower bound never exceeds the estimate, its total weight is exact, and merging gives exactly the same answers as one sketch fed both streams. "
  "Overestimation beyond the advertised error occurs no more often than advertised, and sketches of a different shape or seed are refused.",
  ["inputs", "histories", "configurations"], "every weighted stream, shape, seed and merge tree", "Tests use a handful of items.",
  ["count/count_min_sketch.go"], [("row updates and minimum", "count/count_min_sketch.go")])
p("M02", "Count-Min serialization round trips",
  "Serializing a Count-Min sketch and reading it back with the same seed preserves shape, total weight and the answer for every item, continues correctly, and re-serializes to the same bytes; a different seed or an image that is not a complete Count-Min image is refused.",
  ["inputs", "histories", "configurations"], "every shape, seed, weight history and damaged prefix", "Tests round trip one sketch.",
  ["count/count_min_sketch.go"], [("Serialize/Deserialize", "count/count_min_sketch.go")])
p("B01", "Bloom filter never forgets an inserted item",
  "Every item inserted into a Bloom filter, into any input of a union, or present before serialization, is reported present; test-and-update returns what a query just before would have returned; and equal numeric values inserted through different integer widths or float forms are found as documented. "
  "A filter after reset reports nothing present.",
  ["inputs", "histories", "configurations"], "every item type and value, filter size, hash count, seed, and history of updates, unions, inversions and round trips", "Tests insert counters.",
  ["filters/bloom_filter.go", "filters/bit_array.go"], [("double hashing and bit set", "filters")])
p("B02", "Bloom filter algebra and bookkeeping are exact bitwise",
  "Union, intersection and inversion of compatible filters are exactly the bitwise operations on their contents, the reported number of bits used always equals the number of set bits, incompatible filters are refused without change, and arguments are never modified.",
  ["inputs", "histories", "configurations"], "every pair of filters and history of operations", "Tests combine two small filters.",
  ["filters/bloom_filter.go", "filters/bit_array.go"], [("bit array operations", "filters/bit_array.go")])
p("B03", "Bloom filter serialization round trips and sizing meets its target",
  "Serializing a Bloom filter and reading it back preserves every membership answer, bits used, capacity, hash count and seed, and continues correctly, and the image has the size its format defines. "
  "A filter sized for n items and a target false-positive probability shows, after n insertions, a false-positive rate not materially above the target.",
  ["inputs", "histories", "configurations"], "every filter size, fill, hash count, seed, target probability", "Tests check one or two configurations.",
  ["filters/bloom_filter.go", "filters/bloom_filter_builder.go"], [("serialization and sizing formulae", "filters")])
# ---------------------------------------------------------------- sampling
p("S01", "Reservoir sampling keeps a true, uniform sample of the stream",
  "A reservoir sketch holds exactly min(k, n) items, each a distinct position of the stream fed since the last reset, counts n exactly, and keeps everything while n <= k. "
  "Every stream position is retained with probability k/n, and subset-sum estimates are exact while n <= k and otherwise bracketed by the bounds two standard deviations of a sample without replacement give.",
  ["inputs", "histories", "configurations"], "every stream length, k, resize factor", "Randomised retention cannot be settled by a fixed example; tests look at sizes.",
  ["sampling/reservoir_items_sketch.go"], [("Algorithm R with growth", "sampling/reservoir_items_sketch.go")])
p("S02", "Reservoir union yields a sample of the combined stream",
  "The union of reservoir sketches counts exactly the total stream length, holds only items from its inputs, each input position at most once, never more than its limit, keeps everything while the total fits, retains each position of the combined stream with equal probability, and leaves inputs unmodified.",
  ["inputs", "histories", "configurations"], "every sequence of inputs of any k and n, and union limit", "Tests check sizes for a few merges.",
  ["sampling/reservoir_items_union.go"], [("two-way merge", "sampling/reservoir_items_union.go")])
p("S03", "VarOpt sampling conserves total weight and keeps heavy items",
  "A VarOpt sketch holds min(k, n) items of the stream, each position at most once, its adjusted weights sum to the exact total weight fed (up to rounding), every item keeps at least its own weight, items above the sampling threshold are kept with their exact weight, and everything is exact while n <= k. "
  "Non-positive and non-finite weights are refused, subset-sum estimates are consistent with the samples and bracketed by the bounds two standard deviations of the light part give, and subset sums are unbiased over repeated runs.",
  ["inputs", "histories", "configurations"], "every weighted stream, k, resize factor", "Tests check sizes and one total.",
  ["sampling/varopt_items_sketch.go"], [("heap plus reservoir regions", "sampling/varopt_items_sketch.go")])
p("S04", "VarOpt union conserves total weight and count",
  "A VarOpt union of any sketches, also reservoir sketches, always yields a result whose adjusted weights sum to the inputs' combined total weight, whose count is their combined count, whose items all come from the inputs, and whose size respects the limit, leaves inputs unmodified, and never fails for valid inputs. "
  "Serializing and restoring the union in between changes nothing.",
  ["inputs", "histories", "configurations"], "every sequence of inputs in exact or estimation mode with any k, n and weights", "Tests merge a few sketches.",
  ["sampling/varopt_items_union.go", "sampling/varopt_items_union_encoder.go", "sampling/varopt_items_union_decoder.go"], [("marked items and threshold tracking", "sampling/varopt_items_union.go")])
p("S05", "Sampling sketches serialize losslessly",
  "Serializing a reservoir or VarOpt sketch, or a union of them, and reading it back preserves the samples with their weights, n, k and resize factor for every item type, and the copy continues as a valid sketch.",
  ["inputs", "histories", "configurations"], "every reachable state and item value", "Tests round trip a few states.",
  ["sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch_encoder.go", "sampling/varopt_items_sketch_decoder.go", "sampling/reservoir_items_union.go"], [("encoders/decoders", "sampling")])
# ---------------------------------------------------------------- cross-cutting
p("X01", "Binary formats stay compatible with the C++ and Java libraries",
  "Every reference image produced by the C++ and Java libraries decodes to the content it was built from, and where the format is canonical, rebuilding the same sketch here or re-encoding the decoded one gives the same bytes. "
  "Images written here follow the published byte layout as read by an independent parser.",
  ["inputs", "configurations"], "every sketch family, configuration and cardinality for which reference images exist, and every image produced by our workloads",
  "Tests decode the reference images and compare estimates; symmetric encoder/decoder drift and content errors pass.",
  ["serialization_test_data", "theta", "tuple", "hll", "cpc", "kll", "frequencies", "filters", "sampling", "tdigest"],
  [("wire formats", "all packages")])
p("X02", "Damaged or hostile bytes never crash, hang or exhaust memory",
  "Decoding any truncated, bit-flipped, extended or arbitrary byte string with any decoder of the library returns an error or a usable sketch: it never panics, never loops without end, and never allocates memory out of proportion to the input size and the capacity the image legitimately declares. "
  "A proper prefix of a valid image is never accepted as a different sketch.",
  ["inputs", "fault_sequences"], "every byte string, seeded by every valid image our workloads and the reference files provide",
  "Tests try a few hand-made short slices.",
  ["theta/decoder.go", "theta/wrapped_compact_sketch.go", "tuple/decoder.go", "hll/hll_sketch.go", "cpc/cpc_compressed_state.go", "kll/items_sketch.go", "frequencies", "filters", "sampling", "tdigest", "count"],
  [("length and range checks", "all decoders")])
p("X03", "Independent sketches and read-only sharing are free of data races",
  "Sketches used from different goroutines never interfere unless the caller shares a mutable one: separate instances, including copies and decoded siblings of one sketch, can be built, merged, queried and serialized concurrently with results identical to sequential execution, and immutable compact or wrapped sketches and decoded images can be read concurrently, also as inputs of set operations in several goroutines.",
  ["schedules", "histories"], "every interleaving of operations on disjoint sketches and of reads on shared immutable ones",
  "The test suite is sequential and never runs under the race detector with shared inputs.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "filters", "sampling", "count", "internal"],
  [("no shared mutable package state", "all packages")])
p("X04", "Results and copies never alias their sources",
  "No sketch keeps or exposes storage shared with a caller's byte slice, another sketch, or a previously returned result (except where its documentation says so: the zero-copy wrapped theta sketch, inline string summaries, raw items given to a reservoir union): mutating the input buffer after decoding, the returned bytes after encoding, the original after copying, compacting or merging, or the copy itself never changes the other side.",
  ["histories", "inputs"], "every family and every pair of operations that create one object from another, followed by any mutation of either",
  "Tests never mutate one side and re-examine the other.",
  ["theta", "tuple", "hll", "cpc", "kll", "frequencies", "filters", "sampling", "tdigest", "count"],
  [("defensive copies", "all packages")])
p("X05", "Equal inputs hash equally across types, updates and libraries",
  "Items that the library documents as equal (the two zeros, every NaN, integer widths of the same value where documented, equal strings and byte slices) always count as one item, items that differ count as different ones, empty strings and slices are handled as documented, and hashes equal those of the reference MurmurHash3/XXHash definitions used by the other-language libraries.",
  ["inputs", "configurations"], "every value of every update type, every byte length and seed",
  "Tests check a few constants.",
  ["theta/update_sketch.go", "hll/hll_sketch.go", "cpc/cpc_sketch.go", "internal/murmur3.go", "filters/bloom_filter.go", "tuple/update_sketch.go"],
  [("canonicalisation before hashing", "theta/update_sketch.go, hll/hll_sketch.go, cpc/cpc_sketch.go")])
p("X06", "An object may be combined with itself and with its own results",
  "Giving an operation the receiver itself, one operand twice, or a result or image taken earlier from the receiver has the outcome of giving it an independent copy: unions and intersections fed their own results are unchanged, a sketch minus itself is empty and is fully similar to itself, self-merges of KLL, REQ, t-digest and frequency sketches count every item twice and keep all invariants (extremes, weights, error bounds), a Bloom filter joined or intersected with itself is unchanged, sampling unions fed their own results keep N, total weight and sample limits, and operations that refuse self-merges (count-min) leave the sketch unchanged. The operands never change.",
  ["inputs", "histories"], "every family's binary operations, every state of the operands, any number of self-applications and interleaved updates",
  "Tests never pass an object to its own operation.",
  ["theta", "tuple", "hll/union.go", "cpc/cpc_union.go", "kll/items_sketch.go", "req", "tdigest/double.go", "frequencies", "filters/bloom_filter.go", "sampling", "count"],
  [("merge reading from its argument while changing the receiver", "kll/items_sketch.go, tdigest/double.go, frequencies/longs_sketch.go")])
p("X07", "Refused operations change nothing",
  "An operation that reports an error - an update, merge, union or intersection of an incompatible operand (other seed, shape, mode, accuracy), an out-of-range rank, weight, count, split point or number of deviations, a query of an empty sketch, a decode of a part of an image, a merge beyond a documented maximum - leaves its receiver and operands exactly as they were: state, image, answers, everything derived earlier, and all later evolution. Operands that can never be combined meaningfully are refused rather than combined.",
  ["inputs", "histories"], "every family's refusable operations, any state of the receiver, any number of refusals interleaved with accepted operations",
  "Tests assert that an error is returned, never what the object is afterwards.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling"],
  [("update after a partial check", "sampling/reservoir_items_union.go, req/sketch.go, count/count_min_sketch.go")])
p("X08", "Reading never changes an object",
  "Queries, iterations (complete, abandoned, nested, or two at a time), string forms, conversions, serializations and uses as an operand leave an object as it was: every question answers the same when asked again in any order, its image stays the same, and it evolves under later operations exactly as a twin that was never read (for t-digests, where reading settles buffered values, as a twin settled at the same times).",
  ["inputs", "histories"], "every family, any interleaving of questions and changes",
  "Tests ask each question once, mostly at the end.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling"],
  [("lazily built or cached state", "kll/items_sketch.go, req/sketch.go, tdigest/double.go, hll/union.go, filters/bloom_filter.go")])
p("X09", "Streams and callbacks: nothing is lost, invented or read twice",
  "Encoders write the same image to any writer and one after the other; when the writer fails at any byte or any write, once or for good, they report an error, what was written is a prefix of the image, and the sketch is unchanged and can be encoded again. Decoders give the same sketch from any reader however it fragments its data, report a reader's failure, and (tuple, array-of-numbers, t-digest) consume exactly one image, so images stored one after the other decode in order. Failures of the caller's own summary and item (de)serialization code are reported by the operation that called it.",
  ["inputs", "fault_sequences"], "every byte offset and write call of a failing writer or reader, every call of failing user code, any fragmentation",
  "Tests use only in-memory buffers that never fail or fragment.",
  ["theta/encoder.go", "theta/decoder.go", "tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofnumbers_sketch_encoder.go", "tdigest/double_encoder.go", "tdigest/double_decoder.go", "count/count_min_sketch.go", "sampling", "kll", "frequencies"],
  [("chain of writes each with its own error", "tuple/encoder.go, tdigest/double_encoder.go, sampling/varopt_items_sketch_encoder.go, count/count_min_sketch.go")])
p("X10", "Operations use the present state of their operands",
  "A merge, union, intersection, difference or similarity works from its operand as it is at that moment, whatever happened with the same object before: giving one live sketch again after it was updated, trimmed or reset, unchanged, or alternating with others adds exactly what a new sketch with the same history would add (twice counts twice, where counting is what the operation does); results taken again reflect everything fed since; and the operand is left as an operand that was never used.",
  ["histories", "programs"], "up to three live operands and two receivers of every kind, any interleaving of changes and uses",
  "Tests build each operand completely, use it once and drop it.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling"],
  [("merge, union and intersection entry points", "theta/union.go, tuple/union.go, hll/union.go, cpc/cpc_union.go, sampling/varopt_items_union.go, sampling/reservoir_items_union.go")])
p("X11", "Constructors, options, defaults and sizing functions do what is documented",
  "A constructor accepts a parameter if and only if it is in the documented range (NaN and values that cannot be represented are refused, never wrapped), getters report what was asked for, later options replace earlier ones and their order is otherwise irrelevant, and whatever is left out has the documented default: the object behaves and serializes as one with every option given. Sizing and error functions (suggested bits, buckets and hash counts, epsilon and a-priori error) give the value of their documented formula or an error.",
  ["configurations", "inputs"], "every list of options with repetitions, boundary and random parameters of every constructor and sizing function",
  "Tests name the options one at a time with valid values and check a few invalid constants.",
  ["theta/update_sketch.go", "theta/union.go", "theta/intersection.go", "tuple/update_sketch.go", "tuple/union.go", "tuple/arrayofnumbers_update_sketch.go", "tuple/arrayofnumbers_union.go", "hll/hll_sketch.go", "hll/union.go", "cpc/cpc_sketch.go", "cpc/cpc_union.go", "kll/items_sketch.go", "req/sketch.go", "tdigest/double.go", "frequencies/longs_sketch.go", "frequencies/items_sketch.go", "count/utils.go", "count/count_min_sketch.go", "filters/bloom_filter_builder.go", "sampling"],
  [("option functions and validation", "New* constructors and With* options"), ("sizing formulas", "count/utils.go, filters/bloom_filter_builder.go, frequencies/*.go")])
p("X12", "Exported building blocks do what they document on their own",
  "The parts that are exported besides the sketches hold their contracts without a sketch around them. A numeric sorted view built from any ordered quantiles and cumulative weights includes the extremes it is given, and its ranks, quantiles, CDF, PMF, copies and iterator (which answers only between its first and its last item) agree with the weighted items. "
  "A theta hash table finds exactly the hashes it retains, drops only the largest, keeps at least the nominal number, trims to exactly that number, and copies are independent. A CPC bit matrix and its coupon count equal those of a sketch of the same stream. Comparators order, reversed or not; hashers hash equal items equally, as their definition says; power-of-two and power-series helpers give the documented values.",
  ["inputs", "histories", "configurations"], "every view, every sequence of inserts, trims, resets and copies, every stream, every argument",
  "Tests build one or two views and tables by hand.",
  ["common/quantiles", "theta/hashtable.go", "cpc/bit_matrix.go", "common/utils.go", "common/item_sketch_long.go", "common/item_sketch_double.go", "common/item_sketch_string.go"],
  [("sorted view and iterator", "common/quantiles/numeric_sorted_view*.go"), ("find, insert, rebuild, trim", "theta/hashtable.go"), ("matrix update", "cpc/bit_matrix.go")])
p("X13", "Memory stays bounded by the configuration, not the stream",
  "The memory an object holds is bounded by its configuration alone, whatever it has been through: however many items, merges, resets, queries and images lie behind it, a sketch, union or filter keeps no more items than its configuration advertises and its live memory stays within a small multiple of the size of the tables, buffers and samples that configuration calls for.",
  ["inputs", "histories", "configurations"], "every kind of object, configuration and history of updates, merges, resets, queries and decodings, of any length",
  "Tests use short histories and look at answers; a buffer that is no longer emptied or a table that grows past its limit gives right answers.",
  ["theta/hashtable.go", "tuple/hashtable.go", "hll/hll_array.go", "cpc/pair_table.go", "kll/items_sketch.go", "req/compactor.go", "tdigest/double.go", "frequencies/longs_sketch.go", "frequencies/items_sketch.go", "sampling/reservoir_items_sketch.go", "sampling/varopt_items_sketch.go"],
  [("rebuild of the hash table", "theta/hashtable.go"), ("buffer and compression", "tdigest/double.go"), ("levels", "kll/items_sketch.go"), ("purge", "frequencies")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
