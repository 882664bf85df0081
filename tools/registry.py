"""What each property's check runs: exhaustive models, scripted replays, recorded traces."""

# family (harness sub-command) -> trace specification
FAMILIES = {
    "bloom": "TraceBloom",
    "sbloom": "TraceScalableBloom",
    "cuckoo": "TraceCuckoo",
    "scuckoo": "TraceScalableCuckoo",
    "quotient": "TraceQuotient",
    "bitvec": "TraceBits",
    "bitstr": "TraceBitstrings",
    "clone": "TraceCopies",
    "serde": "TraceCopies",
    "equal": "TraceCopies",
    "builder": "TraceCopies",
    "stream": "TraceStream",
    "streamlong": "TraceStream",
    "streamseen": "TraceStream",
    "cms": "TraceCountMin",
    "minhash": "TraceSimilar",
    "hashes": "TraceSimilar",
    "simhash": "TraceSimilar",
    "pairs": "TraceSimilar",
    "shingle": "TraceSimilar",
    "hll": "TraceHyperLogLog",
    "mhll": "TraceHyperLogLog",
    "size": "TraceSize",
    "accuracy": "TraceAccuracy",
    "mquotient": "TraceMany",
    "mcuckoo": "TraceMany",
    "mscuckoo": "TraceMany",
    "mbits": "TraceMany",
    "mstrs": "TraceMany",
    "wbloom": "TraceWide",
    "wsbloom": "TraceWide",
    "wstream": "TraceWide",
    "wcuckoo": "TraceWide",
    "wquotient": "TraceWide",
    "lbits": "TraceRuns",
    "lstrs": "TraceRuns",
    "wbits": "TraceWide",
    "wstrs": "TraceWide",
}

# model -> (module, quick cfg or None, thorough cfg, family that replays its EDGE lines or None)
MODELS = {
    "hash": ("MCHash", "MCHash", "MCHash", None),
    "bloom": ("MCBloom", "MCBloom", "MCBloom_t", "bloom"),
    "sbloom": ("MCScalableBloom", "MCScalableBloom", "MCScalableBloom", "sbloom"),
    "sbloom-big": ("MCScalableBloom", None, "MCScalableBloom_t", None),
    "cuckoo1": ("MCCuckoo", "MCCuckoo", "MCCuckoo_t", None),
    "scuckoo": ("MCScalableCuckoo", "MCScalableCuckoo", "MCScalableCuckoo_t", None),
    "cuckoo2": ("MCCuckoo", "MCCuckoo_2", "MCCuckoo_2", None),
    "sets-cuckoo": ("MCSetOps", "MCSetOps", "MCSetOps_t", "cuckoo"),
    "bits": ("MCBits", "MCBits", "MCBits", "bitvec"),
    "bits8": ("MCBits", "MCBits8", "MCBits8", None),
    "runs": ("MCRuns", "MCRuns", "MCRuns_t", None),
    "strings": ("MCBitstrings", "MCBitstrings", "MCBitstrings_t", "bitstr"),
    "strings3": ("MCBitstrings", "MCBitstrings3", "MCBitstrings3", "bitstr"),
    "fpp": ("MCFpp", "MCFpp", "MCFpp_t", None),
    "copies": ("MCCopies", "MCCopies", "MCCopies_t", None),
    "copies-plain": ("MCCopies", "MCCopiesD", "MCCopiesD", None),
    "size": ("MCSize", "MCSize", "MCSize_t", None),
    "accuracy": ("MCAccuracy", "MCAccuracy", "MCAccuracy_t", None),
    "sip": ("MCSip", "MCSip", "MCSip", None),
    "stream": ("MCStream", "MCStream", "MCStream_t", None),
    "cms": ("MCCountMin", "MCCountMin", "MCCountMin_t", "cms"),
    "hll": ("MCHyperLogLog", "MCHyperLogLog", "MCHyperLogLog", "hll"),
    "hll-big": ("MCHyperLogLog", None, "MCHyperLogLog_t", None),     # thorough only
    "similar": ("MCSimilar", "MCSimilar", "MCSimilar_t", None),
    "quotient21": ("MCQuotient", "MCQuotient", "MCQuotient", "quotient"),
    "quotient22": ("MCQuotient", "MCQuotient22", "MCQuotient22", "quotient"),
    "quotient31": ("MCQuotient", "MCQuotient31", "MCQuotient31_t", "quotient"),
}

# property -> models, and families with the number of recorded runs (quick, thorough).
# "family+swap:Cxx": the collections are replaced by round trips of themselves now and then and judged by
# the clauses of Cxx; a rejection counts only if the same runs without round trips are accepted.
PROPS = {
    "C01": dict(models=["bloom", "sbloom"], runs={"bloom": (480, 12000), "sbloom": (160, 4000), "wbloom": (8, 200)}),
    "C02": dict(models=["bloom"], runs={"bloom": (800, 16000), "wbloom": (8, 200)}),
    "C03": dict(models=["hash", "bloom"], runs={"bloom": (480, 12000), "hashes": (80, 3000), "wbloom": (8, 200)}),
    "C04": dict(models=["sbloom", "sbloom-big"], runs={"sbloom": (480, 8000), "wsbloom": (4, 100)}),
    "C05": dict(models=["cuckoo1", "cuckoo2", "sets-cuckoo"], features="ser", runs={"cuckoo": (400, 8000), "wcuckoo": (8, 200), "mcuckoo": (10, 300)}),
    "C06": dict(models=["cuckoo1", "cuckoo2", "sets-cuckoo"], features="ser", runs={"cuckoo": (400, 8000), "wcuckoo": (8, 200), "mcuckoo": (10, 300)}),
    "C07": dict(models=["cuckoo1", "scuckoo"], runs={"scuckoo": (320, 6000), "mscuckoo": (10, 300)}),
    "C08": dict(models=["quotient21", "quotient22", "quotient31"], runs={"quotient": (400, 8000), "wquotient": (8, 200), "mquotient": (10, 300)}),
    "C09": dict(models=["quotient21", "quotient22"], runs={"quotient": (400, 8000), "wquotient": (8, 200), "mquotient": (10, 300)}),
    "C12": dict(models=["cms", "hash"], runs={"cms": (480, 8000)}),
    "C13": dict(models=["cms"], runs={"cms": (480, 8000)}),
    "C14": dict(models=["hll", "hll-big"], runs={"hll": (480, 6000), "mhll": (30, 1200)}),
    "C15": dict(models=["hll", "hll-big"], runs={"hll": (320, 6000), "mhll": (30, 1200)}),
    "C16": dict(models=["similar", "hash"], runs={"minhash": (320, 8000), "hashes": (24, 800)}),
    "C17": dict(models=["similar"], runs={"simhash": (160, 8000)}),
    "C18": dict(models=["similar"], runs={"pairs": (200, 8000)}),
    "C19": dict(models=["similar"], runs={"shingle": (800, 20000)}),
    "C22": dict(models=["bits", "bits8", "runs"], runs={"bitvec": (480, 12000), "wbits": (4, 60), "mbits": (10, 300), "lbits": (160, 4000)}),
    "C23": dict(models=["strings", "strings3", "runs"], runs={"bitstr": (480, 12000), "wstrs": (8, 200), "mstrs": (10, 300), "lstrs": (120, 4000)}),
    "C25": dict(models=["fpp"], runs={"bloom": (160, 4000), "sbloom": (80, 3000), "cuckoo": (120, 4000), "scuckoo": (80, 3000), "quotient": (100, 4000)}),
    "C20": dict(models=["copies", "copies-plain"], features="ser",
                runs={"serde": (680, 20000), "cuckoo+swap:C05": (120, 3000), "scuckoo+swap:C07": (80, 2000), "stream+swap:C10": (45, 900)}),
    "C21": dict(models=["copies", "copies-plain"], runs={"clone": (850, 25000)}),
    "C24": dict(models=["size"], features="ser", runs={"size": (240, 8000), "size+wrap": (80, 2000)}),
    "C26": dict(models=["copies", "copies-plain", "sip"], runs={"equal": (850, 25000), "builder": (120, 4000)}),
    "C27": dict(models=["accuracy"], runs={"accuracy": (1000, 20000)}),
    "C10": dict(models=["stream"], runs={"stream": (180, 4000), "wstream": (6, 60)}),
    "C11": dict(models=["stream"], features="ser", shards=6, runs={"stream": (270, 3000), "streamlong": (18, 900), "streamseen": (36, 900), "wstream": (6, 60)}),
}
