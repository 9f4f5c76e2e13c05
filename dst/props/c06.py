"""C06: each write mode and DELETE leaves exactly the rows its definition gives, and re-running converges."""
import copy

from .. import gen, harness, hist
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "one history of one to six write statements (all five modes and DELETE, some repeated, the source changing in between) judged step by step against a table state machine"
REAL = ["syncanysql parser, compiler, executor, query/delete/reduce taskers", "syncany core loaders and all five outputers"]
STUB = ["storage server (simulated driver, two databases)", "wall clock", "unique ids"]
ASSUMPTIONS = ["the first selected column is the key of a write with an explicit mode, and source rows have distinct keys",
               "the rows a UDI or DI write replaces are the ones its own WHERE condition on the key selects (all without WHERE)"]

NAMES = {"I": ["I", "insert"], "U": ["U", "u", "UPDATE", "update"], "UI": ["UI", "UPDATE_INSERT", "update_insert"],
         "UDI": ["UDI", "udi", "UPDATE_DELETE_INSERT"], "DI": ["DI", "DELETE_INSERT", "delete_insert"]}


def statement(step):
    if "setting" not in step:
        return hist.sql(step)
    if step["setting"] in NAMES[step["mode"] or "I"]:
        text = hist.sql(dict(step, mode=None))
    else:
        text = hist.sql(dict(step, mode=step["mode"] or "I"))
    return "set @use_output_type='%s'; %s; set @use_output_type=''" % (step["setting"], text)


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    steps = hist.steps(rng, tables, rng.choice([1, 2, 2, 3, 4, 6]))
    for i in range(len(steps) - 1, -1, -1):
        if rng.random() < 0.3:
            steps.insert(i + 1, copy.deepcopy(steps[i]))
        if rng.random() < 0.3:
            steps.insert(i, {"op": "source", "rows": gen.table_t(rng)})
    for step in steps:
        if step["op"] == "write" and rng.random() < 0.25:
            # the mode is said by a setting of the session, or by the statement against such a setting
            step["setting"] = rng.choice(NAMES[step["mode"] or "I"]) if rng.random() < 0.7 else rng.choice(NAMES[rng.choice(list(NAMES))])
    return {"tables": tables, "steps": steps, "session": harness.pick_session(rng, len(tables["t"])), "storage": harness.pick_storage(rng),
            "scan_seed": rng.randrange(1 << 30)}


def execute(plan):
    w = harness.world(plan)
    e = harness.engine()
    out = {"violations": [], "stats": {}}
    harness.set_session(e, plan["session"])
    state = hist.clone(plan["tables"])
    done = []
    for i, step in enumerate(plan["steps"]):
        if step["op"] == "source":
            state["t"] = copy.deepcopy(step["rows"])
            w.tables["t"] = copy.deepcopy(step["rows"])
            done.append("(source table replaced)")
            continue
        text = statement(step)
        done.append(text)
        repeated = i and plan["steps"][i - 1] == step
        before = hist.canon(state.get(step["target"], []))
        want = hist.apply(step, state)
        try:
            harness.run_sql(w, e, text)
        except Exception as ex:
            out["violations"].append(violation("statement_failed", "session %s: %s\n  raised %s" % (plan["session"], text, harness.err(ex))))
            break
        got = {t: w.tables.get(t, []) for t in set(want) | set(w.tables)}
        harness.saw(w, got)
        for t in got:
            bad = hist.same(got[t], want.get(t, []))
            if bad:
                out["violations"].append(violation("wrong_table", "session %s: after %s\n  table %s: %s" % (
                    plan["session"], " ;; ".join(done), t, bad)))
        if out["violations"]:
            break
        state = want
        mode = step["op"] if step["op"] == "delete" else step.get("mode") or "I"
        out["stats"][mode] = out["stats"].get(mode, 0) + 1
        if repeated and mode in ("U", "UI", "UDI", "DI"):
            w.reach.add("repeated_" + mode)
        if mode in ("UDI", "DI") and before and step["query"].get("where"):
            w.reach.add("scoped_" + mode)
    out["sample"] = {"history": done, "session": plan["session"]}
    e.close()
    return out
