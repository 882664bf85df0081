"""Per property: what the verdict covers and trusts (level_note), and the deciding method (technique)."""
TRUST = " Trusts TLC, the recorder (which only logs public answers) and the generated inputs' coverage."
TV = "TLA+ specification, TLC: "
_N = {
 "C01": "Exhaustive: all insert/clear histories of filters of up to 3 bits (2x2 partitioned) and of small scalable filters, over every triple of 5 hash pairs; every plain transition replayed on the code. Code: recorded histories validated call by call, lengths to 2^33 bits, 4000 probes.",
 "C02": "Exhaustive as for C01 with idempotence and commutation. Code: ones, zeros, length, reported set and equality of plain filters after every call of recorded histories.",
 "C03": "The iteration refines the closed form over 64 hash pairs x 200 steps in the model; on the code every probe (to about 4000), minhash entry (to index 3 million) and counter column follows the closed form, for adversarial 64-bit hashes.",
 "C04": "Model: running approximation against the exact growth rule (9809 states). Code: stage count and length after every call of recorded histories; sizes to beyond 2^32 bits.",
 "C05": "Exhaustive displacement-level model of tiny tables; every insert/remove/clear transition over 5 items replayed on 12 filter shapes; recorded histories with adversarial hashes, tables to 2^33 bits.",
 "C06": "As C05; for at most 8 classes all placements consistent with the answers are tracked, so an unneeded spill or lost entry is refuted exactly; for larger universes necessary conditions only.",
 "C07": "Recorded histories over several stages; stage growth refuted exactly for newest stages of up to 6 classes, by count otherwise.",
 "C08": "Exhaustive slot-level model for q,r = 2,1 2,2 3,1 (all reachable tables), its transitions replayed on the code; recorded histories with q to 33 and r to 62.",
 "C09": "As C08: length, capacity, emptiness and refusal after every call, continuing after caught panics.",
 "C10": "Exhaustive small model; recorded histories of the three filters with every answer checked after each insertion.",
 "C11": "Every eviction checked exactly against the allowed successors; the distribution statistically (Bernstein bound e^-20 per test, entropy fixed by VERIF_SEED): biases below a few percent of a class's losses are not resolved.",
 "C12": "Exhaustive for 3 items on 2x2 counters; recorded histories in 64-bit words, counters also observed through a strategy of our own.",
 "C13": "As C12; estimates judged on exact integers.",
 "C14": "Exhaustive for a small universe (4096 states); recorded histories of 2-5 sketches compared bit for bit with equal sets.",
 "C15": "Estimate recomputed in fixed point (10^-9) from the items' hashes, either branch accepted within the arithmetic's tolerance of the threshold.",
 "C16": "Signatures compared word for word; k to 1500, index to 3 million for single items, 900 items.",
 "C17": "Votes recomputed exactly, bags to 16 million occurrences.",
 "C18": "Pairs recomputed exactly by all 64 rotations; for long inputs the order of each rotation is logged as a witness and verified.",
 "C19": "Windows and set ratio recomputed exactly; sequences to several thousand tokens.",
 "C20": "Round trips (bincode) of 17 kinds of collection anywhere in a history; digest of all queries after every step; also cuckoo, scalable cuckoo and stream histories under swaps.",
 "C21": "Clones of 17 kinds of collection; digest of all queries of all instances after every step.",
 "C22": "Exhaustive for vectors of a few blocks, transitions replayed; recorded histories; vectors beyond 2^32 bits.",
 "C23": "Exhaustive for small widths, transitions replayed; recorded histories for widths 1..64, totals beyond 2^32 bits.",
 "C24": "Documented formulas in fixed point; ceilings undecided within 10^-7 of an integer accept both sides. Three constructible but unusable quotient filter shapes are known findings.",
 "C25": "Estimates recomputed in fixed point within a few 10^-9 (10^-6 for scalable filters).",
 "C27": "Experiments on the real code under SipHash with many seeds, arguments and item types, each judged by Bernstein's bound at e^-20 (entropy fixed by VERIF_SEED): an error rate a few tenths above what is promised is refuted, a smaller one may not be.",
 "C26": "SipHash 2-4 in the specification against the builders; equality and digests for rebuilt builders; entropy builders pairwise different.",
}
NOTES = {k: v + TRUST for k, v in _N.items()}
_R = ("C01", "C02", "C05", "C06", "C08", "C09", "C22", "C23")
TECHNIQUE = {k: TV + "exhaustive small models" + (" replayed on the code" if k in _R else "") + " plus trace validation of recorded runs of the real code" for k in _N}
TECHNIQUE["C07"] = TV + "exhaustive model of the stages plus trace validation of recorded runs of the real code"
TECHNIQUE["C27"] = TV + "exhaustive model of the error laws for small filters plus statistical trace validation of recorded experiments on the real code"
TECHNIQUE["C11"] = TV + "exhaustive model of the schemes, trace validation of every eviction, and statistics of the evictions accumulated in the trace specification"
