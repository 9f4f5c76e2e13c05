"""C09: when a script ends, in whatever way, it has given back its connections and dropped its intermediate rows."""
import gc
import os

from .. import harness, hist
from ..harness import violation
from . import c08

RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("one engine that runs a random sequence of correct and failing scripts (storage faults, interrupts, compile errors, failing functions, terminal()), "
        "directly or in contexts; after each one the simulated server's view of connections and the memory database are inspected")
REAL = ["syncanysql parser, compiler, executor, all query/delete/union/CTE taskers, contexts, engine close", "syncany core database manager and connection pool, memory database"]
STUB = ["storage server (simulated driver, two databases)", "wall clock", "unique ids"]
ASSUMPTIONS = ["a connection in the pool of the engine counts as given back"]


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    scripts = []
    for n in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.6:
            s = c08.bad_script(rng, tables, n)
        else:
            s = {"steps": hist.any_steps(rng, tables, rng.choice([1, 2, 3]), 0.7, "g%d_" % n)}
        s["context"] = rng.random() < 0.3
        s["idle"] = rng.choice([0, 0, 0, 200, 400, 10000])
        if rng.random() < 0.1:
            s["terminal"] = rng.random()
        scripts.append(s)
    session = harness.pick_session(rng, len(tables["t"]))
    return {"tables": tables, "scripts": scripts, "session": session, "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30)}


def held(w):
    """Connections taken from the pool and not given back."""
    out = {}
    for ev in w.trace:
        if ev["k"] == "acquire":
            out[ev["c"]] = True
        elif ev["k"] in ("release", "disconnect"):
            out.pop(ev["c"], None)
    return sorted(out)


def leftovers(e):
    database = e.get_database("--")
    database.ensure_memory_databases()
    return sorted(n for n, rows in database.memory_databases.items() if n.startswith("--.__"))


def fds():
    return len(os.listdir("/proc/self/fd"))


def execute(plan):
    out = {"violations": [], "stats": {}}
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    log, problem = [], None
    e.get_database("--")
    files = fds()
    peak = 0
    for s in plan["scripts"]:
        w.advance(s["idle"])
        if s["idle"] > 300:
            w.reach.add("idle_connection_pinged")
        text = c08.script(s)
        if "aim" in s:
            s.setdefault("at", w.ops + 1 + int(s["aim"][0]["frac"] * 12))
            w.faults = {s["at"]: dict(s["aim"][0], at=s["at"])}
        target = e.context() if s["context"] else e
        stop_at = w.ops + 1 + int(s["terminal"] * 12) if "terminal" in s else None

        def probe(at, op, table):
            if at == stop_at:
                w.reach.add("terminal")
                target.terminal()
        w.probe = probe
        w.note("sql", q=text)
        how = "returned"
        try:
            target.execute(text)
        except BaseException as ex:
            how = "raised " + harness.err(ex)
            w.reach.add("after_" + type(ex).__name__)
        w.faults, w.probe = {}, None
        log.append("%s\n      (%s)" % (text, how))
        w.note("outcome", o=how.split(":")[0])
        if held(w):
            problem = "connections %s were not given back" % held(w)
        elif leftovers(e):
            problem = "intermediate tables %s are still there" % leftovers(e)
        elif [ev for ev in w.trace if ev["k"] in ("use_after_close", "shared_connection")]:
            problem = "a connection was used after it was closed or by two users at once: %s" % [
                ev for ev in w.trace if ev["k"] in ("use_after_close", "shared_connection")][0]
        elif len(w.open_connections()) > 12:
            problem = "%d connections are open although one script at a time runs" % len(w.open_connections())
        peak = max(peak, len(w.open_connections()))
        if problem:
            break
    if not problem:
        gc.collect()
        if fds() > files:
            problem = "%d file descriptors were left open" % (fds() - files)
    if not problem:
        e.close()
        if w.open_connections():
            problem = "after close() the connections %s are still open" % w.open_connections()
        log.append("close()")
    if problem:
        out["violations"].append(violation("not_released", "session %s storage %s: %s\n  %s" % (
            plan["session"], plan["storage"], "\n    ;; ".join(log), problem)))
    out["stats"] = {"scripts": len(plan["scripts"]), "connections_peak_%d" % peak: 1}
    out["nontrivial"] = w.ops > 0
    out["sample"] = {"log": log[-3:]}
    return out


def shrink(plan):
    yield from harness.shrink_lists(plan, [("scripts",)], 1)
    for i in range(len(plan["scripts"])):
        yield from harness.shrink_lists(plan, [("scripts", i, "steps")])
    yield from harness.shrink_lists(plan, [("tables", t) for t in plan["tables"]])
    yield from harness.default_shrink(plan)
