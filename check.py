#!/usr/bin/env python3
"""Run one property's seeded search, or replay one failing run.

  check.py --property C01 --tier quick|thorough
  check.py --replay FILE
  check.py --selftest            determinism self-test of every property

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness itself failed (never mixed up with a violation).
"""
import argparse
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
PYTHON = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
HASH_SEEDS = [1, 2, 3, 4]


class HarnessError(Exception):
    pass


def build_clock(base):
    so = os.path.join(base, "simclock.so")
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "native", "simclock.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise HarnessError("cannot build simclock: " + r.stdout.decode(errors="replace"))
    return so


class Worker(object):
    def __init__(self, base, so, prop, seed, tier, hashseed):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("SYNCANY", "PYTHON"))}
        env.update({"LD_PRELOAD": so, "SIMCLOCK_LIB": so, "PYTHONHASHSEED": str(hashseed), "TZ": "UTC", "LC_ALL": "C.UTF-8",
                    "PYTHONPATH": HERE + os.pathsep + REPO, "PYTHONDONTWRITEBYTECODE": "1", "HOME": base,
                    "DST_HASH_SEED": str(hashseed)})
        self.hashseed = hashseed
        self.log = open(os.path.join(base, "worker.%d.log" % id(self)), "w+")
        self.proc = subprocess.Popen([PYTHON, "-m", "dst.worker", prop, str(seed), tier, base], env=env, cwd=base,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, text=True, bufsize=1)
        if not self.proc.stdout.readline():
            self.proc.wait()
            self.log.seek(0)
            raise HarnessError("worker failed to start:\n" + self.log.read()[-3000:])

    def ask(self, task):
        self.proc.stdin.write(json.dumps(task) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            self.log.seek(0)
            raise HarnessError("worker died:\n" + self.log.read()[-3000:])
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(10)
        except Exception:
            self.proc.kill()
            self.proc.wait()
        self.log.close()


class Pool(object):
    """Workers grouped by hash seed; run i always executes under hash seed i % 4."""

    def __init__(self, base, so, prop, seed, tier, jobs, hash_seeds=HASH_SEEDS):
        self.args = (base, so, prop, seed, tier)
        self.workers = {}
        self.hash_seeds = hash_seeds
        per = max(1, jobs // len(hash_seeds))
        started, errors = [], []

        def start(h):
            try:
                started.append(Worker(*self.args, h))
            except Exception as e:
                errors.append(e)
        threads = [threading.Thread(target=start, args=(h,)) for h in hash_seeds for _ in range(per)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for w in started:
            self.workers.setdefault(w.hashseed, []).append(w)
        if errors:
            self.close()
            raise HarnessError(str(errors[0]))

    def map(self, tasks, stop=None, deadline=None):
        """tasks: [(hashseed, task)]; yields results as they come."""
        queues, out, threads = {}, queue.Queue(), []
        for h, task in tasks:
            queues.setdefault(h, queue.SimpleQueue()).put(task)
        halt = threading.Event()

        def loop(worker, q):
            try:
                while not halt.is_set() and (deadline is None or time.monotonic() < deadline):
                    try:
                        task = q.get_nowait()
                    except queue.Empty:
                        break
                    out.put(worker.ask(task))
            except Exception as e:
                out.put(e)
            out.put(None)
        for h, ws in self.workers.items():
            if h in queues:
                for w in ws:
                    t = threading.Thread(target=loop, args=(w, queues[h]), daemon=True)
                    t.start()
                    threads.append(t)
        left = len(threads)
        try:
            while left:
                r = out.get()
                if r is None:
                    left -= 1
                    continue
                if isinstance(r, Exception):
                    raise HarnessError(str(r))
                yield r
                if stop and stop(r):
                    halt.set()
        finally:
            halt.set()
            for t in threads:
                t.join()

    def one(self, plan, trace=False):
        h = int(plan.get("hashseed", self.hash_seeds[0]))
        ws = self.workers.get(h)
        if not ws:
            ws = self.workers[h] = [Worker(*self.args, h)]
        return ws[0].ask({"plan": plan, "trace": trace})

    def close(self):
        for ws in self.workers.values():
            for w in ws:
                w.close()


def load_module(prop):
    sys.path.insert(0, HERE)
    import importlib
    return importlib.import_module("dst.props." + prop.lower())


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == prop]


def match_finding(findings, violation):
    for f in findings:
        if f["kind"] == violation["kind"] and re.search(f.get("match", ""), violation["detail"], re.S):
            return f
    return None


def unlisted(findings, result):
    return [v for v in result.get("violations", []) if not match_finding(findings, v)]


def symptom(v):
    """What has to stay the same while a plan shrinks: the kind, and for an exception its class and opening words
    (a smaller plan that is refused for being malformed is not the same failure)."""
    m = re.search(r"raised (\w+)(?:: ?)?([^,'\"\d]{0,40})", v.get("detail") or "")
    return (v["kind"],) + (m.groups() if m else ())


def minimise(pool, module, findings, plan, first, budget_s):
    """Greedy shrink: keep any smaller plan that still shows the same class of violation."""
    kind, best, tries = symptom(first), plan, 0
    shrink = getattr(module, "shrink", None)
    if shrink is None:
        from dst.harness import default_shrink as shrink
    end = time.monotonic() + budget_s
    hs = int(plan.get("hashseed", 1))
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        candidates = []
        for c in shrink(best):
            c["hashseed"] = hs
            candidates.append(c)
        for c in candidates:
            if time.monotonic() > end:
                break
            tries += 1
            r = pool.one(c)
            if r.get("harness_error"):
                continue
            if any(symptom(v) == kind for v in unlisted(findings, r)):
                best, progress = c, True
                break
    return best, tries


def report(pool, module, prop, findings, result, shrink_s):
    plan = result["plan"]
    first = unlisted(findings, result)[0]
    again = pool.one(plan)
    if not any(v["kind"] == first["kind"] for v in again.get("violations", [])):
        raise HarnessError("violation did not reproduce: %s\nplan %s\nagain %s" % (first, json.dumps(plan)[:2000], str(again)[:2000]))
    best, tries = minimise(pool, module, findings, plan, first, 0 if first["kind"] == "no_progress" else shrink_s)
    final = pool.one(best, trace=True)
    shown = [v for v in unlisted(findings, final) if v["kind"] == first["kind"]]
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, plan.get("index", "x")))
    with open(path, "w") as fp:
        json.dump({"property": prop, "plan": best, "expect": {"kind": first["kind"], "digest": final.get("digest")},
                   "detail": shown[0]["detail"] if shown else first["detail"], "shrink_runs": tries,
                   "original_plan": plan, "trace": final.get("trace")}, fp, indent=1, default=repr)
    print("violation of %s: %s: %s" % (prop, first["kind"], (shown or [first])[0]["detail"]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def check(prop, tier, args):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = load_module(prop)
    findings = load_findings(prop)
    runs = args.runs or module.RUNS[tier]
    wall = {"quick": 560, "thorough": 3000}[tier]
    jobs = args.jobs or max(4, os.cpu_count() or 4)
    base = tempfile.mkdtemp(prefix="dst-")
    pool = None
    try:
        so = build_clock(base)
        pool = Pool(base, so, prop, seed, tier, jobs)
        digests, faults, reach, kinds = set(), {}, {}, {}
        done = sim_ns = ops = nontrivial = 0
        samples, known, bad = [], {}, []
        tasks = [(HASH_SEEDS[i % 4], {"index": i}) for i in range(runs)]

        def stop(r):
            if args.all:
                for v in unlisted(findings, r):
                    print(r["plan"]["index"], v["kind"], v["detail"], flush=True)
                return False
            return bool(r.get("harness_error")) or bool(unlisted(findings, r))
        for r in pool.map(tasks, stop, t0 + wall):
            if r.get("harness_error"):
                raise HarnessError("run %s: %s" % (json.dumps(r.get("plan"))[:3000], r["harness_error"]))
            done += 1
            ops += r.get("ops", 0)
            sim_ns += r.get("sim_ns", 0)
            for k, v in r.get("faults", {}).items():
                faults[k] = faults.get(k, 0) + v
            for k in r.get("reach", ()):
                reach[k] = reach.get(k, 0) + 1
            if r.get("nontrivial", True) and r.get("ops", 1) > 0:
                nontrivial += 1
                digests.add(r["digest"])
            if r.get("sample") and len(samples) < 8:
                samples.append(r["sample"])
            for k, v in r.get("stats", {}).items():
                kinds[k] = kinds.get(k, 0) + v
            for v in r.get("violations", []):
                f = match_finding(findings, v)
                if f:
                    known[f["id"]] = f
            if unlisted(findings, r):
                bad.append(r)
        for f in findings:
            if f["id"] in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        violations = 0
        if bad and args.all:
            return 1
        if bad:
            bad.sort(key=lambda r: r["plan"].get("index", 0))
            violations = len(bad)
            report(pool, module, prop, findings, bad[0], args.shrink)
        took = time.monotonic() - t0
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": done, "distinct_nontrivial": len(digests),
                "rule": module.RULE, "samples": samples or ["(no run completed)"],
                "simulated_runs": done, "seeds": done, "runs_per_hour": int(done / max(took, 0.001) * 3600),
                "simulated_seconds": round(sim_ns / 1e9, 3), "simulated_operations": ops,
                "faults_injected": faults, "rare_conditions_reached": reach, "workload": kinds,
                "distinct_measure": "distinct digests of the full event trace (every storage operation, its table, row "
                                    "count, injected fault, connection and clock event) of one run",
                "real_components": module.REAL, "stubbed_components": module.STUB,
                "known_findings_seen": sorted(known),
            },
            "assumptions": module.ASSUMPTIONS, "wall_s": round(took, 2), "violations": violations,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
            json.dump(evidence, fp, indent=1, sort_keys=True)
        print("%s %s: %d runs, %d distinct, faults %s, %.1fs" % (prop, tier, done, len(digests), faults, took))
        return 1 if bad else 0
    finally:
        if pool:
            pool.close()
        shutil.rmtree(base, ignore_errors=True)


def replay(path, args):
    doc = json.load(open(path))
    prop = doc["property"]
    base = tempfile.mkdtemp(prefix="dst-")
    try:
        so = build_clock(base)
        digests, shown = [], None
        for _ in range(2):
            pool = Pool(base, so, prop, 0, "quick", 1, [int(doc["plan"].get("hashseed", 1))])
            try:
                r = pool.one(doc["plan"], trace=True)
            finally:
                pool.close()
            if r.get("harness_error"):
                raise HarnessError(r["harness_error"])
            digests.append(r.get("digest"))
            hits = [v for v in r["violations"] if v["kind"] == doc["expect"]["kind"]]
            shown = hits or shown
            if not hits:
                print("replay of %s shows no violation of kind %s; violations: %s" % (path, doc["expect"]["kind"], r["violations"]))
                return 0
        if args.trace:
            for e in r.get("trace") or ():
                print(json.dumps(e))
        exact = digests[0] == digests[1] == doc["expect"]["digest"]
        print("%s: %s" % (shown[0]["kind"], shown[0]["detail"]))
        print("event trace %s%s" % (digests[0], " (identical to the recorded run)" if exact else
                                    " (differs from the recorded run %s: the code changed)" % doc["expect"]["digest"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)


def selftest(args):
    """Same run twice, in different processes, worker counts and (where the plan allows) hash seeds."""
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    props = [args.property] if args.property else [c["property"] for c in manifest["checks"]]
    n, bad = args.runs or 60, 0
    for prop in props:
        base = tempfile.mkdtemp(prefix="dst-")
        try:
            so = build_clock(base)
            seen = {}
            for seed in (1, 2):
                for round_, jobs in enumerate((4, 8)):
                    pool = Pool(base, so, prop, seed, "quick", jobs)
                    try:
                        tasks = [(HASH_SEEDS[i % 4], {"index": i, "id": i}) for i in range(n)]
                        for r in pool.map(tasks):
                            if r.get("harness_error"):
                                raise HarnessError(r["harness_error"])
                            key = (seed, r["id"])
                            val = (r["digest"], json.dumps(r["violations"], sort_keys=True), r.get("ops"))
                            if seen.setdefault(key, val) != val:
                                bad += 1
                                print("NONDETERMINISM", prop, key, seen[key], val)
                    finally:
                        pool.close()
            print("selftest %s: %d runs repeated, %d differences so far" % (prop, len(seen), bad), flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return 2 if bad else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--replay")
    p.add_argument("--trace", action="store_true")
    p.add_argument("--selftest", action="store_true")
    p.add_argument("--runs", type=int)
    p.add_argument("--jobs", type=int)
    p.add_argument("--all", action="store_true", help="development: list every violation, no shrinking")
    p.add_argument("--shrink", type=float, default=60)
    args = p.parse_args()
    try:
        if args.replay:
            return replay(args.replay, args)
        if args.selftest:
            return selftest(args)
        return check(args.property, args.tier, args)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
