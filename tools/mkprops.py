import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BL="src/bloom/bloom_filter.rs"; PA="src/bloom/partitioned_bloom_filter.rs"; SB="src/bloom/scalable_bloom_filter.rs"; DD="src/bloom/dd_bloom_filter.rs"
CU="src/cuckoo/cuckoo_filter.rs"; SC="src/cuckoo/scalable_cuckoo_filter.rs"; QF="src/quotient.rs"; CM="src/count_min_sketch.rs"; HL="src/hyperloglog.rs"
MH="src/similarity/min_hash.rs"; SH="src/similarity/sim_hash.rs"; SM="src/similarity/mod.rs"; BV="src/bit_vec.rs"; BS="src/bitstring_vec.rs"; UT="src/util.rs"
p("C01","Bloom-type filters never forget an inserted item",
 "After any sequence of insertions and clears, a plain, partitioned or scalable Bloom filter reports every item inserted since the last clear, whatever the items' hash values, the filter's size and number of probes, and however often a scalable filter has grown. Clearing, like construction, leaves a filter that reports no item (of a filter with at least one probe).",
 ["histories","inputs","configurations"],"every insert/clear history, every pair of 64-bit hashes per item, every bit count and probe count, every growth",
 "The tests insert one or two strings under fixed seeds; a lost bit at a byte or 2^16 boundary, for an extreme hash value or after a growth is not sampled.",
 [BL,PA,SB,BV],[("insert sets every probed bit","BloomFilter::insert, PartitionedBloomFilter::insert"),("contains tests the same bits","BloomFilter::contains, PartitionedBloomFilter::contains"),("any stage may contain the item","ScalableBloomFilter::contains")],
 ["contains()","insert()","clear()"],[("bit_vec","the filter's bits","BloomFilter, PartitionedBloomFilter")])
p("C02","A Bloom filter's contents are exactly the union of its items' probes",
 "The state of a plain or partitioned Bloom filter depends only on the set of items inserted since the last clear, not on their order or repetition: an item is reported exactly when each of its probes was set by some inserted item, and the numbers of ones and zeros always sum to the bit count, with the ones being exactly the distinct probes of the inserted items. A partitioned filter sends the i-th probe of every item to its i-th partition, so one item sets exactly one bit per partition, and equal plain filters compare equal exactly when hash builders, probe count and bits agree.",
 ["histories","inputs","configurations"],"every insert/clear/compare history over every universe of items, bit count and probe count",
 "Tests look at the count of ones after one or two fixed insertions; order independence and absence of spurious bits quantify over all histories and hash values.",
 [BL,PA,BV],[("probe i is the i-th derived hash modulo the length","BloomFilter::insert/contains"),("partition offset","PartitionedBloomFilter::insert/contains"),("maintained number of ones","BitVec::set, BitVec::set_all")],
 ["contains()","count_ones()","count_zeros()","len()","PartialEq"])
p("C03","Probes follow one fixed derived hash sequence of the two base hashes",
 "Where a collection uses several hash values of an item, the i-th one (from 0) is h1 + i*h2 + i(i-1)(i-2)/6 modulo 2^64, where h1 and h2 are the item's values under the first and the second hash builder, for every i up to the number of hashes in use. Bloom filters, count-min sketches and minhash signatures all use this sequence from its start, so that they stay compatible across instances, processes and versions.",
 ["inputs","configurations"],"all pairs of 64-bit base hashes, all indices, every collection that derives several hashes from two",
 "A few golden values under one pair of seeds do not exercise wrap-around, large indices or degenerate hashes such as h2 = 0.",
 [UT,BL,PA,DD,CM,MH],[("incremental enhanced double hashing","HashIter::next"),("base hashes","DoubleHasher::hash")],
 ["get_min_hashes()","contains()","count()"],[("a, b, c","current hash, first and second difference","HashIter")])
p("C04","Scalable Bloom filter grows exactly when its newest stage is half full",
 "After every insertion a scalable Bloom filter has grown by exactly one stage if at least half of the bits of its newest stage are set, and otherwise has not grown; an insertion of an item that is already reported sets no bit. The n-th stage has the previous stage's bit count times the growth ratio, rounded up, and is built for the initial false positive probability times the tightening ratio to the n; clearing goes back to a single empty stage of the initial size.",
 ["histories","inputs","configurations"],"every insert/clear history, growth ratio, tightening ratio, initial size and probability",
 "The tests grow one filter once; the growth decision rests on an approximation of the used bits whose agreement with the exact count matters at every history.",
 [SB],[("growth test on an upper bound of used bits","ScalableBloomFilter::try_grow"),("skip reported items","ScalableBloomFilter::insert"),("reset","ScalableBloomFilter::clear")],
 ["filter_count()","len()","count_ones()","count_zeros()","contains()"],[("approximate_bits_used","upper bound of the ones in the newest stage","ScalableBloomFilter")])
p("C05","Cuckoo filter is exactly a set of fingerprint classes",
 "Call two items equivalent when they have the same fingerprint and the same pair of candidate buckets; after any history of insert, remove and clear, an item is reported exactly when an equivalent item was inserted after the last remove of an equivalent item and after the last clear. Insertion never drops another item, even when entries are displaced or spill over, and one remove undoes any number of insertions of equivalent items without affecting any other class.",
 ["histories","inputs","configurations","schedules"],"every insert/remove/clear history, every fingerprint width 1..64, entries per bucket and bucket count, every outcome of the random displacements",
 "Tests insert and remove two strings in a nearly empty filter; displacement chains, spilled items, zero fingerprints, and self-paired buckets only arise in particular histories.",
 [CU,BS],[("partial-key cuckoo hashing","CuckooFilter::get_fingerprint_and_indexes"),("displacement loop and spill list","CuckooFilter::insert"),("removal in both buckets and the spill list","CuckooFilter::remove_fingerprint")],
 ["insert()","remove()","contains()","clear()"],[("fingerprint_vec","bucketed fingerprints, 0 = empty","CuckooFilter"),("extra_items","spilled fingerprints","CuckooFilter")],
 "randomness of displacements fixed per run (cfg verif_hooks)")
p("C06","Cuckoo filter accounts for every stored class and spills only when it must",
 "The number of occupied entries plus the number of spilled items always equals the number of distinct classes stored; occupied entries never exceed the capacity, which is the number of buckets times the entries per bucket, and no bucket holds more than its entries. An item goes to the spill list only when both of its candidate buckets are full at that moment, and the filter is nearly full exactly while the spill list is non-empty.",
 ["histories","inputs","configurations","schedules"],"every history and every outcome of the random displacements",
 "The tests check one spill in a one-bucket filter; the accounting must survive displacement, removal of spilled items and clear in any order.",
 [CU,BS],[("count of non-empty entries","BitstringVec::set/occupied_len"),("spill","CuckooFilter::insert"),("capacity","CuckooFilter::capacity")],
 ["len()","extra_items_len()","capacity()","is_nearly_full()","is_empty()","bucket_len()"],None,"randomness of displacements fixed per run (cfg verif_hooks)")
p("C07","Scalable cuckoo filter keeps its set across stages and grows when full",
 "A scalable cuckoo filter reports every item inserted and not removed since the last clear, across all stages: an item is reported exactly when some stage stores its class, an already reported item is not stored again, and a remove takes the item's class out of every stage. It adds exactly one stage after an insertion that leaves the newest stage full or with a spilled item and none otherwise, the new stage being sized by the growth ratio; its length and capacity are the sums over stages, spilled items included in the length, and clear goes back to the initial single stage.",
 ["histories","inputs","configurations","schedules"],"every insert/remove/clear history, growth and tightening ratio, entries per bucket",
 "The tests of this type are mostly one growth of a filter with two items; interactions of removal with earlier stages and of growth with spills are histories.",
 [SC,CU],[("growth test","ScalableCuckooFilter::try_grow"),("dedup over stages","ScalableCuckooFilter::insert"),("removal in all stages","ScalableCuckooFilter::remove")],
 ["contains()","len()","capacity()","filter_count()","clear()"],None,"randomness of displacements fixed per run (cfg verif_hooks)")
p("C08","Quotient filter is exactly a set of quotient/remainder fingerprints",
 "After any history of insert, remove and clear, a quotient filter reports an item exactly when an item with the same quotient and remainder bits was inserted and not removed since; inserting or removing one fingerprint never changes the answer for another. Removing an item that is not present changes nothing.",
 ["histories","inputs","configurations"],"every history over every set of fingerprints up to a completely full, wrapped-around table, every legal width of quotient and remainder",
 "The tests cover a dozen hand-made cluster layouts; the metadata bits must stay consistent in every reachable layout of runs and clusters.",
 [QF,BS],[("run search by metadata bits","QuotientFilter::get_run_start"),("shift right","QuotientFilter::insert_and_shift_right"),("shift left and metadata repair","QuotientFilter::remove")],
 ["insert()","remove()","contains()","clear()"],[("slot_vec","remainder plus occupied/continuation/shifted bits per slot","QuotientFilter")])
p("C09","Quotient filter counts fingerprints and refuses only what does not fit",
 "The length of a quotient filter is always the number of distinct fingerprints stored, it is empty exactly when that is 0, and the capacity is 2 to the quotient bits. Every one of the capacity slots can be used; inserting a new fingerprint into a full filter panics and leaves the filter unchanged and usable, while inserting one already present, removing, and inserting after a remove succeed.",
 ["histories","inputs","configurations"],"every history, including those that fill the table, overflow it and continue",
 "One test overfills a tiny filter and stops at the panic; what holds around the boundary and afterwards is a property of histories.",
 [QF],[("length counter","QuotientFilter::insert/remove/clear"),("full check after the duplicate check","QuotientFilter::insert")],
 ["len()","is_empty()","capacity()","panic of insert()"],[("len","number of fingerprints","QuotientFilter")])
p("C10","Stream filters report the newest item and ignore already reported ones",
 "In each of the three duplicate-detecting stream filters, an item is reported immediately after it is inserted, and from then on until some item that was not reported is inserted or the filter is cleared. Inserting an item that is already reported changes nothing observable, and a new or cleared filter reports nothing.",
 ["histories","inputs","configurations","schedules"],"every insert/clear history, every outcome of the random evictions, all three filters",
 "The tests insert one or two items; eviction of a bit of the very item being inserted needs a particular random draw.",
 [DD],[("evict before setting","BSBloomFilter::insert, BSSDBloomFilter::insert, RLBSBloomFilter::insert"),("skip reported items","same")],
 ["insert()","contains()","clear()","count_ones()"],None,"random draws fixed per run (cfg verif_hooks)")
p("C11","Stream filters evict exactly as their scheme prescribes",
 "Inserting an unreported item sets the item's one bit in each partition and clears nothing except: one uniformly random position in every partition (biased sampling), one uniformly random position of the whole filter (biased sampling with single deletion), or in each partition independently one uniformly random position with probability equal to that partition's fraction of ones (randomized load balancing). The numbers of ones and zeros are exact and sum to the total bit count.",
 ["histories","inputs","configurations","schedules"],"every insert/clear history and every sequence of random draws",
 "Evictions are random, so example tests can only look at bit counts after one insertion; a biased, correlated, missing or excessive eviction needs the distribution over many histories.",
 [DD,BV],[("eviction draws","BSBloomFilter::insert, BSSDBloomFilter::insert, RLBSBloomFilter::insert")],
 ["contains()","count_ones()","count_zeros()","bit_count()","len()"],None,"random draws fixed or held constant (cfg verif_hooks)")
p("C12","Count-min sketch keeps exact sums per counter and never underestimates",
 "Each row adds every inserted amount (and subtracts every removed amount) to the one counter selected by the item's row hash, so that under the count-min strategy the count of an item is exactly the minimum over rows of the net amount of all items sharing its counter. Hence it never falls below the item's net amount as long as no item's net amount is negative, is exact without collisions, depends only on the net amounts and not on order, and is 0 for all items after a clear. Any other strategy is given the item's counters in row order and the net total.",
 ["histories","inputs","configurations"],"every insert/remove/clear history with amounts over the 64-bit range, every number of rows and columns",
 "Tests count two words in a sparse sketch; collisions, negative amounts, one-column or one-row sketches and large amounts are not reached.",
 [CM,UT],[("row update","CountMinSketch::insert"),("row lookup","ItemValueIter::next"),("minimum","CountMinStrategy::get_estimate")],
 ["count()","insert()","remove()","clear()"],[("grid","rows x cols counters","CountMinSketch"),("items","net amount of all items","CountMinSketch")])
p("C13","Count-mean and median-bias estimates follow their definitions",
 "The count-mean strategy returns the mean of the item's counters over the rows, rounded to the nearest integer with halves away from zero. The median-bias strategy returns the smaller of the count-min estimate and the lower median over rows of the counter minus the expected noise, which is the net total of all other amounts divided by the number of columns less one, rounded up.",
 ["histories","inputs","configurations"],"every history, including negative totals, even and odd numbers of rows, and a clear in between",
 "Tests use strategies on sketches where all rows agree; rounding, medians of differing rows and negative noise need collisions by construction.",
 [CM],[("mean","CountMeanStrategy::get_estimate"),("median of debiased counters","CountMedianBiasStrategy::get_estimate"),("total maintained","CountMinSketch::insert/clear")],
 ["count()"],[("items","net amount of all items","CountMinSketch")])
p("C14","HyperLogLog state is a function of the set of items, and merge is union",
 "The estimate of a HyperLogLog depends only on the set of distinct items inserted since the last clear: order and repetition do not matter. Merging gives the same estimates, then and after any further insertions, as if all items of both had been inserted into one, is commutative, associative and idempotent, leaves the other operand unchanged, and panics if the number of registers or the hash builder differ; it is empty exactly when nothing was inserted.",
 ["histories","inputs","configurations"],"all interleavings of insert, merge and clear over several instances, all 64-bit hashes",
 "One test merges two sketches of three items; algebraic laws quantify over all pairs of histories.",
 [HL],[("register maximum","HyperLogLog::insert"),("element-wise maximum","HyperLogLog::merge")],
 ["len()","is_empty()","merge()","clear()"],[("registers","largest rank seen per register","HyperLogLog")])
p("C15","HyperLogLog estimate is finite and follows the published estimator",
 "With m registers the estimate is alpha(m)*m*m divided by the sum of 2 to the minus register over all registers, where a register holds the largest rank seen (1 plus the length of the run of ones above the index bits of the hash), except that when this is at most 2.5*m and z > 0 registers are zero it is m*ln(m/z). It is always a finite non-negative number, 0 for an empty sketch, and counts a set of up to a few items with distinct registers essentially exactly.",
 ["histories","inputs","configurations"],"all register contents reachable by any set of 64-bit hashes, all register counts",
 "Tests estimate 3 or 4 items only; neither the harmonic-mean branch nor saturated registers are reached.",
 [HL],[("rank","HyperLogLog::insert"),("raw estimate","HyperLogLog::get_estimate"),("small-range correction","HyperLogLog::len"),("bias constant","HyperLogLog::get_alpha")],
 ["len()"],[("registers","largest rank seen per register","HyperLogLog"),("alpha","bias constant","HyperLogLog")])
p("C16","MinHash signatures are exact minima and similarity is the matching share",
 "The i-th entry of a minhash signature is the minimum, as an unsigned number, of the i-th derived hash over the items, so it depends only on the set of items and the signature of a union is the element-wise minimum of the signatures. The similarity of two signatures is the number of equal positions divided by the number of hashes: symmetric, between 0 and 1, 1 for equal sets, the same whether computed from signatures or from items, and it panics for signatures of different lengths.",
 ["inputs","configurations"],"all non-empty item multisets in any order, all base hashes, all signature lengths",
 "Tests compare two sentences under fixed seeds.",
 [MH,UT],[("minimum per index","MinHash::get_min_hashes"),("match count","MinHash::get_similarity_from_hashes")],
 ["get_min_hashes()","get_similarity()","get_similarity_from_hashes()"])
p("C17","SimHash bits are majority votes over the items' hash bits",
 "Each bit of a simhash is decided by the items' hashes at one fixed bit position (the bit order is reversed): it is 1 exactly when at least as many items have a 0 there as have a 1. The result therefore depends only on the multiset of items, not on their order, and for a single item is the complement of its hash with the bit order reversed.",
 ["inputs"],"all finite multisets of items and all 64-bit hashes, including ties and the empty multiset",
 "Tests pin two sentences under one seed; ties and order independence are not sampled.",
 [SH],[("vote counters","SimHash::get_sim_hash")],["get_sim_hash()"])
p("C18","SimHash reports exactly the pairs adjacent in some rotated order",
 "The reported candidate pairs are exactly the pairs of inputs (smaller index first, each pair once) that lie within one window of the given size when the inputs are sorted by simhash, ties by index, for at least one of the 64 bit rotations of the hashes. In particular inputs with equal simhashes that fit one window are always reported together, no input is paired with itself, and when there are no more inputs than the window size every pair is reported.",
 ["inputs","configurations"],"all lists of inputs, all window sizes from 2, fewer inputs than the window included",
 "One test with three sentences and window 2.",
 [SH],[("sort, window, rotate","SimHash::report_similarities")],["report_similarities()"])
p("C19","Shingles are all windows of tokens, and Jaccard is the exact set ratio",
 "A shingle iterator over n tokens with shingle length w > 0 yields, in order, exactly the n-w+1 windows of w consecutive tokens, nothing when n < w, and stays exhausted. The Jaccard similarity of two item sequences is the number of common distinct items divided by the number of distinct items in either (when that is not 0), independent of order and repetition and symmetric.",
 ["inputs"],"all token lists and shingle lengths, all pairs of sequences",
 "Tests use two sentences; short and repeated inputs are not sampled.",
 [SM],[("window","ShingleIterator::next"),("set ratio","get_jaccard_similarity")],["ShingleIterator","get_jaccard_similarity()"])
p("C20","Serialization round-trips preserve every observable behaviour",
 "For every collection and at every point of its history, deserializing a serialized instance yields one that answers every query like the original. From then on the two behave identically under the same operations, except for the random choices of the stream and cuckoo filters, which still obey those filters' other guarantees; serializing changes nothing.",
 ["histories","configurations"],"all collections, all histories before and after the round trip",
 "Tests round-trip one instance per type and compare some fields; a field skipped, defaulted or mis-ordered shows only under particular histories.",
 [BL,PA,SB,DD,CU,SC,QF,CM,HL,MH,SH,BV,BS,UT],[("derived Serialize/Deserialize","all collection types"),("skipped generator re-seeded","CuckooFilter.rng, BSBloomFilter.rng")],
 ["bincode round trip followed by all queries and further operations"],None,None)
p("C21","Clones are faithful and independent",
 "A clone of any collection answers every query like the original and behaves identically under the same further operations. Operations on one of them never change what the other answers, and queries change nothing.",
 ["histories","configurations"],"all collections, all interleavings of operations on original and clones",
 "The tests do not clone collections at all.",
 [BL,PA,SB,DD,CU,SC,QF,CM,HL,BV,BS],[("derived Clone","all collection types"),("manual Clone","BitVec")],["clone() followed by all queries and further operations"])
p("C22","Bit vector behaves as a sequence of bits with an exact count of ones",
 "After any sequence of its operations (constructors, set, get, flip, push, pop, truncate, set-all, flip-all, the four pairwise set operations, reserve, clone, byte conversion, iteration) the bit vector equals the corresponding sequence of booleans: length, every bit, iteration order, bytes and equality agree. The counts of ones and zeros are exact, reading past the end gives nothing, and writing past the end panics.",
 ["histories","inputs"],"all operation sequences and lengths, around byte boundaries in particular",
 "Tests call each operation once on short vectors; stale bits past the end and the maintained count only show in sequences.",
 [BV],[("maintained count","BitVec::set/flip/apply"),("clearing of extra bits","BitVec::clear_extra_bits")],
 ["all public operations of the bit vector"],[("one_count","number of ones","BitVec")],"re-export of the crate-private type (cfg verif_hooks)")
p("C23","Bitstring vector behaves as a sequence of fixed-width words",
 "After any sequence of its operations (constructors, set, get, push, pop, truncate, clear, reserve, clone, iteration) a vector of w-bit strings equals the corresponding sequence of numbers below 2^w, for every width from 1 to 64: writing one element never changes another, and length, iteration and equality agree. The number of occupied elements is exactly the number of non-zero ones.",
 ["histories","inputs","configurations"],"all widths 1..64, all operation sequences, elements straddling word boundaries",
 "Tests use one width; straddling and full-width elements and stale bits after pop are combinations of width, index and history.",
 [BS],[("bit packing","BitstringVec::get/set"),("occupied count","BitstringVec::set/push/pop/clear")],
 ["all public operations of the bitstring vector"],[("occupied_len","number of non-zero elements","BitstringVec")],"re-export of the crate-private type (cfg verif_hooks)")
p("C24","Constructors size collections as documented and reject what they document",
 "For every legal argument a constructor yields the documented size: a Bloom filter for n items at probability p has ceil(n*log2(1/p)/ln 2) bits and ceil(bits/items*ln 2) probes; a partitioned Bloom filter has ceil(log2(1/p)) probes with one partition of ceil(n*ln(1/p)/(ln 2)^2/probes) bits each, a stream filter ceil((2+ln p/ln(1-1/e))/2) partitions of the requested size, and len() is the product; a cuckoo filter has the next power of two of buckets for n items at its entries per bucket, and fingerprints (or entries) such that its estimated false positive probability at full load is at most p; a quotient filter has one slot per quotient, 2^q being 1.33*capacity rounded up to a power of two, and its false positive probability at the requested capacity is below p; a count-min sketch has at least ln(1/delta) rows and e/epsilon columns and reports error e^-rows and confidence e/cols; a HyperLogLog has enough registers for a standard error 1.04/sqrt(m) of at most the requested one. What is constructed works, and takes the memory of the bits, slots, counters or registers it reports. The arguments documented to panic do panic, and no others in the documented range that 64-bit hashes can serve do, whether or not the build checks overflows.",
 ["configurations","inputs"],"all constructors over the whole documented argument range",
 "Tests construct one or two instances of each type at round numbers.",
 [BL,PA,SB,DD,CU,SC,QF,CM,HL],[("formulas","get_hasher_count, with_hashers, from_fpp*, from_entries_per_index*, from_fingerprint_bit_count*, from_error*, with_hasher"),("assertions","same")],
 ["len(), hasher_count(), bit_count(), bucket_len(), entries_per_index(), fingerprint_bit_count(), quotient_bits(), remainder_bits(), rows(), cols(), panics, serialized size"])
p("C25","Estimated false positive probability tracks the fill of the filter",
 "The estimated false positive probability is 0 for an empty filter, lies in [0, 1], never falls on insertion and depends only on the current fill: for plain and partitioned Bloom filters it is the fraction of ones to the power of the number of probes, for cuckoo and quotient filters it is one minus the probability that a random fingerprint matches none of the compared entries at the current load, and for scalable filters it combines the stages as independent. Clear resets it to 0.",
 ["histories","configurations"],"all histories, all configurations",
 "Tests compare one filled filter against a constant.",
 [BL,PA,SB,CU,SC,QF],[("estimate","estimated_fpp of each filter")],["estimated_fpp()"])
p("C26","Equal seeds, arguments and operations give equal answers, in any item form",
 "Two instances of a collection built with equal hash builders and equal arguments that undergo the same operations (up to the random choices that stream filters and cuckoo filters make when they evict) answer every query identically, in particular when the second is built from the hash builders the first exposes, and whether items are passed owned or in borrowed form. Where instances can be compared, they are equal when built and used alike, and never while they answer differently. Seeded hash builders are equal exactly when their seeds are, they hash like SipHash 2-4 with that key, and builders drawn from entropy differ.",
 ["histories","configurations","inputs"],"all collections (random eviction and displacement aside), all histories, all seeds",
 "Tests use two fixed builders and never compare instances or item forms.",
 [UT,BL,PA,SB,CU,SC,QF,CM,HL,MH,SH],[("seeded builder","SipHasherBuilder::from_seed"),("exposed builders","hashers(), hasher()"),("borrowed lookups","Borrow bounds of insert/contains/remove/count")],
 ["hashers()","hasher()","all queries on two instances"])
p("C27","Errors are as rare as the constructor arguments ask",
 "With independently seeded hash builders and up to the announced number of items, the observed share of wrong answers agrees with what was asked for, up to sampling error. Plain and partitioned Bloom, cuckoo and quotient filters report items never inserted at most about as often as the requested false positive probability; scalable filters at most the sum of their stages' probabilities p*r^i; for all of these the frequency also agrees with estimated_fpp(). Stream filters report unseen items at most about as often as their fill to the power of their probes allows. A count-min sketch never underestimates, and overestimates by more than epsilon times the total for at most about a share delta of the items. The relative standard error of a HyperLogLog is about at most the requested one. The share of equal minhash entries is the Jaccard similarity of the two sets, and the share of differing simhash bits is the angle between them over pi.",
 ["inputs","configurations"],"all legal arguments, all seeds, all sets of items: a statement about frequencies over seeds and items",
 "Tests use one fixed seed and check single answers; a biased or degenerate use of the hash functions still passes all of them.",
 [BL,PA,SB,DD,CU,SC,QF,CM,HL,MH,SH,UT],[("constructors","new, from_*, with_* of each collection"),("probe and fingerprint selection","contains/insert/count/len")],
 ["frequency of wrong answers","count()","len()","get_similarity()","get_sim_hash()","estimated_fpp()"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
