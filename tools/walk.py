"""Turns the EDGE lines TLC prints for a small model into operation scripts that take every
transition of the model at least once (one script per configuration, restarted when too long)."""
import collections
import json
import random

LIMIT = 300  # operations per script


def header_bloom(cfg, i):
    base = [(0, 0), (1, 0), (0, 1), (2, 1), (3, 2)]
    return ["H %d %d %d" % (cfg[0], cfg[1], cfg[2])] + ["K %d %d" % base[i - 1] for i in cfg[3]]


def header_quotient(cfg, i):
    return ["H %d %d 7" % tuple(cfg)]


def header_sets_cuckoo(cfg, i):
    """Shapes (item count, fingerprint bits, entries) with five keys; small words make equivalent keys."""
    r = random.Random("cuckoo%d" % cfg[0])
    bl, e = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (4, 1)])
    fb = r.choice([1, 2, 4, 8, 64])
    head = ["H %d %d %d %d %d" % (bl * e, fb, e, r.randrange(1 << 30), r.randrange(1 << 30))]
    return head + ["K %d %d" % (r.choice([r.randrange(8), r.getrandbits(64)]), r.choice([r.randrange(4), r.getrandbits(64)]))
                   for _ in range(8)]


def header_bits(cfg, i):
    return ["H 0"]


def header_bitstrings(cfg, i):
    """The model's width, and the width its strings are spread to on the code."""
    return ["H %d %d" % (cfg[0], [cfg[0], 64, 33, 63, 7, 22, 48, 31][i % 8])]


def header_cms(cfg, i):
    """Words that select the model's columns in two rows."""
    rows, cols, col = cfg
    assert rows == 2
    r = random.Random("cms%d" % i)
    return ["H %d %d" % (rows, cols)] + ["K %d %d" % (a + cols * r.getrandbits(59), (b - a) % cols + cols * r.getrandbits(59))
                                         for a, b in col]


def header_hll(cfg, i):
    """Words with the model's register and rank, in a sketch of at least as many registers."""
    bits, place = cfg
    r = random.Random("hll%d" % i)
    p = [bits, bits, 4, 7, 10][i % 5]
    spread = 1 << (p - bits)
    words = []
    for reg, rank in place:
        above = ((1 << (rank - 1)) - 1) | r.getrandbits(64) << rank
        words.append((above << p | reg * spread) & (1 << 64) - 1)
    return ["H %d" % p] + ["K %d 0" % w for w in words]


def header_sbloom(cfg, i):
    """Probabilities for which the stages have about the model's numbers of probes."""
    b0, p, q, k1, k2 = cfg
    base = [(0, 0), (1, 0), (0, 1), (2, 1), (3, 2), (5, 3)]
    return ["H %d %d %d %d %d" % (b0, p, q, k1, k2)] + ["K %d %d" % b for b in base]


HEADERS = {("MCScalableBloom", "sbloom"): header_sbloom,
           ("MCCountMin", "cms"): header_cms, ("MCHyperLogLog", "hll"): header_hll,
           ("MCBits", "bitvec"): header_bits, ("MCBitstrings", "bitstr"): header_bitstrings,
           ("MCBloom", "bloom"): header_bloom, ("MCQuotient", "quotient"): header_quotient,
           ("MCSetOps", "cuckoo"): header_sets_cuckoo}


def covering_walks(model, family, out):
    graphs, inits = collections.defaultdict(lambda: collections.defaultdict(list)), {}
    for line in out.splitlines():
        if not line.startswith('"EDGE '):
            continue
        e = json.loads(json.loads(line)[5:])
        cfg = json.dumps(e["cfg"])
        a, b = json.dumps(e["from"]), json.dumps(e["to"])
        op = tuple(e["op"])
        if e["lv"] == 1:
            inits[cfg] = a
        if (op, b) not in graphs[cfg][a]:
            graphs[cfg][a].append((op, b))
    scripts = []
    for cfg, g in graphs.items():
        left = {n: list(es) for n, es in g.items()}
        remaining = sum(len(v) for v in left.values())
        while remaining:
            cur, ops, taken = inits[cfg], [], 0
            while remaining and len(ops) < LIMIT:
                if left.get(cur):
                    op, nxt = left[cur].pop()
                    remaining -= 1
                    taken += 1
                    ops.append(op)
                    cur = nxt
                    continue
                # shortest path to a node with an untaken transition
                prev, queue, goal = {cur: None}, collections.deque([cur]), None
                while queue:
                    n = queue.popleft()
                    if left.get(n):
                        goal = n
                        break
                    for op, m in g.get(n, []):
                        if m not in prev:
                            prev[m] = (n, op)
                            queue.append(m)
                if goal is None:
                    break
                path = []
                n = goal
                while prev[n] is not None:
                    path.append(prev[n][1])
                    n = prev[n][0]
                ops += reversed(path)
                cur = goal
            if not taken:
                raise RuntimeError("unreachable transitions in " + model)
            head = HEADERS[model, family](json.loads(cfg), len(scripts))
            scripts.append(dict(lines=head + ["O " + " ".join(map(str, o)) for o in ops], edges=taken))
    return scripts
