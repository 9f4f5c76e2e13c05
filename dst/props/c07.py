"""C07: a storage failure reaches the caller; earlier statements are complete, later ones did not run."""
from .. import harness, hist
from ..harness import violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("one script of one to four statements with a fault injected at one storage operation of a first, fault-free execution's schedule; "
        "the stored tables must be explained by one interrupted statement")
REAL = ["syncanysql parser, compiler, executor, all query/delete/union/CTE taskers", "syncany core tasker, loaders, joins, outputers"]
STUB = ["storage server (simulated driver, two databases)", "wall clock", "unique ids"]
ASSUMPTIONS = ["an interrupted statement may leave any mixture of its rows' old and new versions, never other rows",
               "a failed insert may have stored a prefix of its rows (torn, full disk) or all of them (lost acknowledgement)"]


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    steps = hist.any_steps(rng, tables, rng.choice([1, 2, 2, 3, 4]), 0.45)
    session = harness.pick_session(rng, len(tables["t"]))
    kinds = ["stall", "clock"] if rng.random() < 0.08 else None
    return {"tables": tables, "steps": steps, "session": session, "storage": harness.pick_storage(rng),
            "scan_seed": rng.randrange(1 << 30), "aim": [harness.aim(rng, kinds)], "max_ops": 3000}


def execute(plan):
    out = {"violations": [], "stats": {}}
    text = "; ".join(hist.sql(s) for s in plan["steps"])
    if not plan.get("faults"):
        harness.place_faults(plan, harness.dry_ops(plan, lambda w, e: e.execute(text)))
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    w.max_ops = 20000
    raised = None
    try:
        harness.run_sql(w, e, text)
    except BaseException as ex:
        raised = ex
    fired = list(w.injected)
    tables = hist.clone(w.tables)
    state = hist.clone(plan["tables"])
    where = "session %s storage %s fault %s: %s" % (plan["session"], plan["storage"], plan["faults"], text)
    failing = [f for f in fired if f[0] not in ("stall", "clock_jump")]
    if failing and raised is None:
        out["violations"].append(violation("failure_swallowed", "%s\n  returned normally although %s" % (where, failing)))
    elif raised is not None and not failing:
        out["violations"].append(violation("statement_failed", "%s\n  raised %s" % (where, harness.err(raised))))
    elif raised is None:
        problem = None
        for s in plan["steps"]:
            # judged as a whole at the end: later statements only touch other tables or are modelled
            if s["op"] == "query":
                problem = problem or hist.query_problem(s, state, tables.get(s["target"], []))
                state[s["target"]] = tables.get(s["target"], [])
            else:
                state = hist.apply(s, state)
        for t in sorted(set(tables) | set(state)):
            problem = problem or hist.same(tables.get(t, []), state.get(t, []))
        if problem:
            out["violations"].append(violation("wrong_result", "%s\n  %s" % (where, problem)))
    else:
        problem, j = hist.check_stopped(plan["steps"], state, tables)
        if problem:
            out["violations"].append(violation("wrong_effects", "%s\n  raised %s, then the stored tables are not explained: %s" % (
                where, harness.err(raised), problem)))
        elif j is not None and j + 1 < len(plan["steps"]):
            w.reach.add("statements_after_the_failure")
        if j:
            w.reach.add("statements_before_the_failure")
    for f in fired:
        w.reach.add("%s_on_%s" % (f[0], f[2]))
    harness.saw(w, tables)
    out["nontrivial"] = bool(fired)
    out["stats"] = {"fault_fired": 1 if fired else 0, "statements": len(plan["steps"])}
    out["sample"] = {"sql": text, "session": plan["session"], "faults": plan["faults"], "raised": type(raised).__name__ if raised else None}
    w.faults = {}
    e.close()
    return out
