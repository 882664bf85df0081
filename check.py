#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's working tree
   check.py PROPERTY --replay F validate one saved trace again

Builds the harness against /repo, checks the TLA+ models exhaustively with TLC, replays the
transitions of the small models on the real code, records histories of the real code, and validates
every recorded trace against the specification with TLC.
Exit 0: held; 1 with a VIOLATION line: broken; 2: the check itself failed."""
import collections
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import FAMILIES, MODELS, PROPS  # noqa: E402
from walk import covering_walks  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = 8
TLC_TIMEOUT = 20000 if THOROUGH else 700


class ToolError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out after %ss: %s" % (timeout, " ".join(cmd[:6])))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(features, profile="dev"):
    target = os.path.join(HARNESS, "target")
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    if features:
        cmd += ["--features", features]
    rc, out = sh(cmd, 800, {"RUSTFLAGS": "--cfg verif_hooks -Awarnings", "CARGO_TARGET_DIR": target})
    if rc != 0:
        raise ToolError("harness does not build:\n" + out[-4000:])
    return os.path.join(target, "debug" if profile == "dev" else profile, "pcv")


def parse(family):
    """family[+swap][+wrap][:property whose clauses judge] -> family, flags, property
    swap: collections are replaced by serde round trips of themselves now and then
    wrap: built as users build, without overflow checks and debug assertions"""
    fam, _, prop = family.partition(":")
    fam, *flags = fam.split("+")
    return fam, flags, prop


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.conf = PROPS[prop]
        self.work = os.path.join(ROOT, "out", "work", "%s.%d" % (prop, os.getpid()))
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.models, self.samples = [], []
        self.violation = None
        self.known = set()
        self.counts = collections.Counter()
        self.states = self.transitions = self.traces = self.trace_lines = self.edges = 0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, name, env=None, workers=1, heap="2g"):
        meta = os.path.join(self.work, "meta", name)
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
               "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers), "-metadir", meta, "-config", cfg + ".cfg", module + ".tla"]
        prop = env.pop("PROP", self.prop) if env else self.prop
        e = {"PROP": prop, "KNOWN": os.path.join(ROOT, "known_findings.json")}
        e.update(env or {})
        rc, out = sh(cmd, TLC_TIMEOUT, e, SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model(self, m):
        module, quick, thorough, family = MODELS[m]
        t = time.time()
        cfg = thorough if THOROUGH else quick
        if cfg is None:
            return []
        rc, out = self.tlc(module, cfg, "mc-" + m, workers=1 if family else 2, heap="6g" if THOROUGH else "3g")
        g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if rc != 0 or "No error has been found" not in out or not g:
            raise ToolError("model %s does not check:\n%s" % (m, "\n".join(x for x in out.splitlines() if not x.startswith('"EDGE'))[-3000:]))
        gen, dist, left = (int(x.replace(",", "")) for x in g[-1])
        with self.lock:
            self.models.append(dict(model=m, cfg=cfg, states=dist, transitions=gen, exhaustive=left == 0,
                                    wall_s=round(time.time() - t, 1)))
            self.states += dist
            self.transitions += gen
        if family is None or '"EDGE' not in out:
            return []
        scripts = covering_walks(module, family, out)
        files, lines, per = [], 0, max(1, -(-len(scripts) // JOBS))
        for i in range(0, len(scripts), per):
            path = os.path.join(self.work, "%s-%d.script" % (m, i))
            with open(path, "w") as f:
                for s in scripts[i:i + per]:
                    f.write("\n".join(s["lines"]) + "\n")
            lines += sum(s["edges"] for s in scripts[i:i + per])
            files.append((family, path, len(scripts[i:i + per]), "replay-%s-%d" % (m, i)))
        with self.lock:
            self.edges += lines
        return files

    # ------------------------------------------------------------------ traces
    def record(self, family, out, frm, to, script=None):
        fam, flags, _ = parse(family)
        cmd = [self.wrapped if "wrap" in flags else self.pcv, fam] + (["--swap"] if "swap" in flags else []) + ["--seed", str(SEED), "--from", str(frm), "--to", str(to), "--out", out]
        if script:
            cmd += ["--script", script]
        rc, log = sh(cmd, TLC_TIMEOUT)
        if rc != 0:     # the process died (abort, stack overflow, out of memory): find out where
            rc, log = sh(cmd + ["--flush"], TLC_TIMEOUT)
            if rc != 0:
                with open(out, "rb+") as f:
                    data = f.read()
                    if data and not data.endswith(b"\n"):
                        f.seek(data.rfind(b"\n") + 1)
                        f.truncate()
                with open(out, "a") as f:
                    f.write(json.dumps({"ev": "abort", "rc": rc}) + "\n")

    def shard(self, family, frm, to, name, script=None):
        if self.violation:
            return
        trace = os.path.join(self.work, name + ".ndjson")
        self.record(family, trace, frm, to, script)
        self.validate(family, trace, name, frm, to)

    def validate(self, family, trace, name, frm, to):
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            raise ToolError("empty trace " + trace)
        ok, bad, why, st, known = self.accept(family, trace, name)
        with self.lock:
            self.known |= known
        if not ok:
            fam, flags, prop = parse(family)
            if "swap" in flags:        # is it the round trips?
                plain = "%s:%s" % (fam, prop)
                self.record(plain, trace, frm, to)
                if not self.accept(plain, trace, name + "-plain")[0]:
                    with self.lock:
                        self.counts[fam + ".rejected_without_round_trips"] += 1
                    return
            self.reject(family, lines, bad, why)
            return
        evs = collections.Counter(re.match(r'\{"ev":"(\w+)"', x).group(1) for x in lines)
        with self.lock:
            self.traces += sum(1 for x in lines if '"run":' in x[:40])
            self.trace_lines += len(lines)
            for k, v in evs.items():
                self.counts[family + "." + k] += v
            self.states += st
            self.transitions += st
            if len(self.samples) < 4:
                self.samples.append(dict(family=family, lines=[x[:240] for x in lines[:3]]))
        os.remove(trace)

    def accept(self, family, trace, name):
        fam, _, prop = parse(family)
        spec = FAMILIES[fam]
        rc, out = self.tlc(spec, spec, "tv-" + name, {"TRACE": trace, "PROP": prop or self.prop})
        st = re.findall(r"([\d,]+) distinct states found", out)
        st = int(st[-1].replace(",", "")) if st else 0
        known = set(re.findall(r'<<\s*"KNOWN-FINDING",\s*"([^"]*)"', out))
        m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
        if m and m.group(1) == m.group(2) and rc == 0 and "No error has been found" in out:
            return True, None, None, st, known
        if m and int(m.group(1)) < int(m.group(2)):
            return False, int(m.group(1)) + 1, "no action of the specification accepts this line", st, known
        inv = re.search(r"Invariant (\w+) is violated", out)
        ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)]
        if inv and ls:
            return False, ls[-1] - 1, "invariant %s of the specification is violated after this line" % inv.group(1), st, known
        ev = re.search(r"Error: (Evaluating .*|TLC threw an unexpected exception.*|.*[Oo]verflow.*|Attempted .*|The .*)", out)
        if ls and ev and not re.search(r"OutOfMemory|StackOverflow|java\.io\.|java\.nio\.", out):
            return False, ls[-1], "the specification cannot be evaluated on this line: " + ev.group(1)[:200], st, known
        raise ToolError("TLC failed on %s:\n%s" % (trace, out[-3000:]))

    def reject(self, family, lines, bad, why):
        start = bad - 1
        while start > 0 and not re.match(r'\{"ev":"(run|bulk)"', lines[start]):
            start -= 1
        os.makedirs(os.path.join(ROOT, "out", "replay"), exist_ok=True)
        path = os.path.join(ROOT, "out", "replay", "%s-%s-seed%d-%d.ndjson" % (self.prop, family, SEED, bad))
        with self.lock:
            if self.violation:
                return
            self.violation = path
            with open(path, "w") as f:
                f.write("\n".join(lines[start:bad]) + "\n")
            print("rejected: %s\n  %s" % (why, lines[bad - 1][:1200]))
            print("  again: python3 check.py %s --replay %s" % (self.prop, path))

    # ------------------------------------------------------------------ driver
    def run(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        try:
            self.pcv = build(self.conf.get("features", ""))
            if any("wrap" in parse(f)[1] for f in self.conf["runs"]):
                self.wrapped = build(self.conf.get("features", ""), "wrap")
            t_build = time.time() - self.t0
            with cf.ThreadPoolExecutor(JOBS) as pool:
                futs = {pool.submit(self.model, m): "model" for m in self.conf.get("models", [])}
                for fam, n in self.conf["runs"].items():
                    n = n[1] if THOROUGH else n[0]
                    nshard = max(1, min(-(-n // 10), self.conf.get("shards", JOBS)))
                    if THOROUGH:
                        nshard = max(nshard, -(-n // 250))
                    cuts = [round(i * n / nshard) for i in range(nshard + 1)]
                    for i in range(nshard):
                        futs[pool.submit(self.shard, fam, cuts[i], cuts[i + 1], "%s-%d" % (fam, i))] = "trace"
                while futs:
                    done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
                    for d in done:
                        kind = futs.pop(d)
                        r = d.result()
                        if kind == "model":
                            for fam, path, n, name in r:
                                futs[pool.submit(self.shard, fam, 0, n, name, path)] = "trace"
            self.evidence(t_build)
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation))
            return 1
        print("%s held: %d model states, %d traces (%d lines) validated, %d model transitions replayed, %.1fs" % (
            self.prop, sum(m["states"] for m in self.models), self.traces, self.trace_lines, self.edges, time.time() - self.t0))
        return 0

    def evidence(self, t_build):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, models=sorted(self.models, key=lambda m: m["model"]),
                   trace_lines_validated=self.trace_lines, model_transitions_replayed_on_code=self.edges,
                   events=dict(sorted(self.counts.items())), build_s=round(t_build, 1),
                   note="states and transitions: TLC's counts over the exhaustive models and the trace validations together")
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.conf.get("level", "model_checking"),
                  coverage=cov, assumptions=self.conf.get("assumptions", []) + [
                      "the code is exercised through its public API (plus the verif_hooks re-exports); what no trace or replay reaches is not judged"],
                  wall_s=round(time.time() - self.t0, 1), violations=1 if self.violation else 0)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            fam = os.path.basename(sys.argv[3]).split("-")[1]
            os.makedirs(c.work)
            try:
                ok, bad, why, _, _ = c.accept(fam, os.path.abspath(sys.argv[3]), "replay")
            finally:
                shutil.rmtree(c.work, ignore_errors=True)
            print("accepted" if ok else "rejected at line %d: %s" % (bad, why))
            return 0 if ok else 1
        return c.run()
    except ToolError as e:
        print("check failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
