#!/usr/bin/env python3
"""selftest.py [FAMILY ...]   test of the machinery itself (not one of the registered checks)

Records traces of every family, changes one recorded value at a time and validates the result under
every property that uses the family.  Prints, per kind of line and field, how many of the changed
traces were rejected and by which properties.  A field of which no change is ever rejected is either
an argument (another legal history) or an answer nobody looks at: the second kind is what to look for."""
import collections
import concurrent.futures as cf
import json
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402
from registry import FAMILIES, PROPS  # noqa: E402

PER_FIELD = int(os.environ.get("PER_FIELD", "6"))
RUNS = int(os.environ.get("RUNS", "6"))


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def change(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 if v >= 0 and rng.random() < .5 else v - 1 if v > 0 else v + 1
    return v + "x" if isinstance(v, str) else v


def put(obj, path, v):
    for p in path[:-1]:
        obj = obj[p]
    obj[path[-1]] = v


def main():
    rng = random.Random(check.SEED)
    pcv = check.build("ser")
    users = collections.defaultdict(set)
    for prop, conf in PROPS.items():
        for f in conf["runs"]:
            fam, flags, p = check.parse(f)
            if not flags:
                users[fam].add(p or prop)
    work = os.path.join(ROOT, "out", "work", "selftest.%d" % os.getpid())
    os.makedirs(work)
    jobs = []
    for fam in (sys.argv[1:] or FAMILIES):
        base = os.path.join(work, fam + ".ndjson")
        c = check.Check(sorted(users[fam])[0])
        c.pcv = pcv
        c.record(fam, base, 0, RUNS)
        lines = open(base).read().splitlines()
        # the lines of few, short runs
        fields = collections.defaultdict(list)
        for n, line in enumerate(lines[:4000]):
            obj = json.loads(line)
            for path, v in leaves(obj):
                if path != ("ev",) and v is not None:
                    fields[obj["ev"], ".".join("*" if isinstance(p, int) else p for p in path)].append((n, path))
        for key, places in sorted(fields.items()):
            for i, (n, path) in enumerate(rng.sample(places, min(PER_FIELD, len(places)))):
                jobs.append((fam, key, lines, n, path, "%s-%s-%s-%d" % (fam, key[0], key[1].replace("*", ""), i)))

    def one(job):
        fam, key, lines, n, path, name = job
        obj = json.loads(lines[n])
        v = obj
        for p in path:
            v = v[p]
        put(obj, path, change(v, random.Random(name)))
        trace = os.path.join(work, name + ".ndjson")
        with open(trace, "w") as f:
            f.write("\n".join(lines[:n] + [json.dumps(obj, separators=(",", ":"))] + lines[n + 1:]) + "\n")
        by = set()
        for prop in sorted(users[fam]):
            c = check.Check(prop)
            c.work = work
            try:
                if not c.accept(fam, trace, name + "-" + prop)[0]:
                    by.add(prop)
            except check.ToolError:
                by.add("error")
        os.remove(trace)
        return fam, key, by

    table = collections.defaultdict(lambda: [0, 0, set()])
    with cf.ThreadPoolExecutor(check.JOBS) as pool:
        for fam, key, by in pool.map(one, jobs):
            t = table[fam, key]
            t[0] += 1
            t[1] += bool(by)
            t[2] |= by
    for (fam, (ev, field)), (n, rej, by) in sorted(table.items()):
        print("%-10s %-8s %-14s %d of %d rejected %s%s" % (fam, ev, field, rej, n, " ".join(sorted(by)), "" if rej else "   <== none"))
    check.shutil.rmtree(work)


if __name__ == "__main__":
    main()
