"""The monitoring loop shared by all checks.

A check yields cases (JSON-able workload items) and judges batches of them by observing
executions of the real code. Shards run in forked processes, each with its own PRNG stream.
Verdicts are three-valued: a failure string (violation), None (held), or an Inconclusive
exception, which makes the whole run end with exit status 2 and neither of the others.
"""
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

from . import build
from .drv import Inconclusive

VERIF = build.VERIF
LEVEL = "exploration"


def h64(x):
    if not isinstance(x, (bytes, str)):
        x = json.dumps(x, sort_keys=True)
    if isinstance(x, str):
        x = x.encode("utf8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, check, tier, seed, shard, nshards):
        self.check, self.tier, self.seed, self.shard, self.nshards = check, tier, seed, shard, nshards
        self.rng = random.Random("%s/%d/%s/%d" % (check.id, seed, tier, shard))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.violations = []
        self.known = {}
        self.deadline = time.time() + (check.quick_cap if tier == "quick" else check.thorough_cap)

    @property
    def quick(self):
        return self.tier == "quick"

    def count(self, quick, thorough=None):
        """This shard's share of a number of cases."""
        n = quick if self.quick else (thorough if thorough is not None else quick * self.check.scale)
        return max(1, n // self.nshards + (1 if self.shard < n % self.nshards else 0))

    def mine(self, items):
        """This shard's share of a fixed list."""
        return [x for i, x in enumerate(items) if i % self.nshards == self.shard]

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def seen(self, key):
        """Count a non-trivial case as distinct by its key."""
        self.distinct.add(h64(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def known_finding(self, kid, what):
        self.known[kid] = what

    def out_of_time(self):
        return time.time() > self.deadline


class Check:
    id = "C00"
    technique = ""
    level_note = ""
    rule = ""
    assumptions = ()
    shards = 8
    scale = 20
    batch = 1
    quick_cap = 240
    thorough_cap = 3000
    max_violations = 3

    def setup(self):
        """Build what the check needs (runs once, in the parent)."""

    def open(self, ctx):
        """Start servers (runs in each shard)."""

    def close(self, ctx):
        pass

    def cases(self, ctx):
        raise NotImplementedError

    def judge(self, ctx, cases):
        """-> list with one failure string or None per case"""
        raise NotImplementedError

    def finish(self, merged):
        """Parent-side additions to coverage; may raise Inconclusive if too little was observed."""
        return {}


def run_shard(check, ctx):
    check.open(ctx)
    try:
        batch = []

        def flush():
            if not batch:
                return
            cs = list(batch)
            batch.clear()
            for c, f in zip(cs, check.judge(ctx, cs)):
                ctx.evaluations += 1
                if f is not None:
                    ctx.violations.append({"case": c, "what": f})

        for case in check.cases(ctx):
            batch.append(case)
            if len(batch) >= check.batch:
                flush()
            if len(ctx.violations) >= check.max_violations:
                break
            if ctx.out_of_time():
                ctx.stat("stopped_by_time_limit")
                break
        flush()
    finally:
        check.close(ctx)


def _entry(check, tier, seed, shard, nshards, conn):
    try:
        ctx = Ctx(check, tier, seed, shard, nshards)
        run_shard(check, ctx)
        conn.send({"evaluations": ctx.evaluations, "distinct": ctx.distinct, "samples": ctx.samples,
                   "stats": ctx.stats, "violations": ctx.violations, "known": ctx.known})
    except Inconclusive as e:
        conn.send({"inconclusive": str(e), "violations": ctx.violations})
    except BaseException:
        conn.send({"error": traceback.format_exc(), "violations": []})
    finally:
        conn.close()
        os._exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def clip(x, n=1500):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...(%d chars)" % len(x)
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [clip(v, n) for v in x[:20]]
    return x


def run_check(check, tier, seed):
    t0 = time.time()
    try:
        check.setup()
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    n = check.shards
    mp = multiprocessing.get_context("fork")
    procs = []
    for s in range(n):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_entry, args=(check, tier, seed, s, n, b))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    for p, a in procs:
        try:
            results.append(a.recv())
        except EOFError:
            results.append({"error": "shard died", "violations": []})
        p.join()
    merged = {"evaluations": 0, "distinct": set(), "samples": [], "stats": {}, "known": {}, "violations": []}
    problems = []
    for r in results:
        merged["violations"] += r["violations"]
        if "inconclusive" in r:
            problems.append("INCONCLUSIVE: " + r["inconclusive"])
            continue
        if "error" in r:
            problems.append("ERROR: " + r["error"])
            continue
        merged["evaluations"] += r["evaluations"]
        merged["distinct"] |= r["distinct"]
        merged["samples"] += r["samples"]
        merged["known"].update(r["known"])
        for k, v in r["stats"].items():
            merged["stats"][k] = merged["stats"].get(k, 0) + v
    extra = {}
    if not problems:
        try:
            extra = check.finish(merged) or {}
        except Inconclusive as e:
            problems.append("INCONCLUSIVE: %s" % e)
    listed = {f["id"]: f for f in load_known()["findings"] if f["property"] == check.id}
    for kid, what in list(merged["known"].items()):
        if kid not in listed:
            merged["violations"].append({"case": {"known": kid}, "what": what})
    cov = {"evaluations": merged["evaluations"], "distinct_nontrivial": len(merged["distinct"]), "rule": check.rule,
           "samples": clip(merged["samples"][:6]), "observed": dict(sorted(merged["stats"].items()))}
    cov.update(extra)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(merged["violations"])}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov["samples"] = clip(merged["samples"][:2], 300)
        text = json.dumps(ev, indent=1)
    with open(os.path.join(d, check.id + ".json"), "w") as f:
        f.write(text)
    for kid in sorted(merged["known"]):
        if kid in listed:
            print("KNOWN-FINDING: property=%s %s" % (check.id, listed[kid]["what"]))
    for m in problems:
        print(m, file=sys.stderr)
    if merged["violations"]:
        rd = os.path.join(VERIF, "replays", check.id)
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(merged["violations"][:8]):
            path = os.path.join(rd, "%s-%d-%d.json" % (tier, seed, i))
            with open(path, "w") as f:
                json.dump({"property": check.id, "tier": tier, "seed": seed, **v}, f, indent=1)
            print("  " + clip(v["what"], 1200).replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if problems:
        return 2
    print("%s: held on %d evaluations, %d distinct non-trivial cases, %.1f s" % (
        check.id, merged["evaluations"], len(merged["distinct"]), time.time() - t0))
    return 0


def replay(check, path):
    data = json.load(open(path))
    check.setup()
    ctx = Ctx(check, data["tier"], data["seed"], 0, 1)
    check.open(ctx)
    try:
        r = check.judge(ctx, [data["case"]])[0]
    finally:
        check.close(ctx)
    if r is None:
        print("held")
        return 0
    print(r)
    print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1
