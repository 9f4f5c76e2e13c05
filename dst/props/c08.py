"""C08: after a failed script the same engine behaves like a fresh one."""
from .. import gen, harness, hist, model
from ..harness import violation

RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("one engine that alternates failing scripts (storage faults, interrupts, syntax and compile errors, failing user functions) with "
        "correct statements; every correct statement is judged against the stored tables it started from")
REAL = ["syncanysql parser, compiler, executor, all query/delete/union/CTE taskers, execution contexts", "syncany core tasker, loaders, joins, outputers"]
STUB = ["storage server (simulated driver, two databases)", "wall clock", "unique ids"]
ASSUMPTIONS = ["session settings made before the failure stay in force"]

BAD_SQL = ["insert into nodb.x select a.id as id from s.t a",
           "insert into s.out2 select no_such_function(a.id) as id from s.t a", "delete from s.out2 where id+1>3",
           "insert into s.out2 select a.id as id from nodb.t a", "insert into s.out2 select a.id as id from s.t a where",
           "select from where", "insert into s.out2 with w1 as (select 9 as p) select q.p as p from nosuch.w1 q",
           "execute `missing.sql`", "use `no_such_module_xyz` as nomod"]


def bad_script(rng, tables, n):
    """(statements, aim, via): a script that fails."""
    steps = hist.any_steps(rng, tables, rng.choice([1, 1, 2, 3]), 0.6, "f%d_" % n)
    roll = rng.random()
    if roll < 0.55:
        return {"steps": steps, "aim": [harness.aim(rng, ["error", "error", "lost_ack", "torn", "interrupt"])]}
    if roll < 0.75:
        bad = rng.choice(BAD_SQL)
        at = rng.randrange(len(steps) + 1)
        return {"steps": steps, "bad_sql": bad, "bad_at": at}
    where = rng.choice(["select", "where", "group", "cte"])
    v = rng.choice([0, 1, 2, 3])
    bad = {"select": "insert into s.fx select a.id as id, sim_boom(a.k,%d) as v from s.t a",
           "where": "insert into s.fx select a.id as id from s.t a where sim_boom(a.k,%d)>0",
           "group": "insert into s.fx select sim_boom(a.k,%d) as g, avg(a.id) as n, count(*) as c from s.t a group by g",
           "cte": "insert into s.fx with w1 as (select sim_boom(a.k,%d) as p, a.id as i from s.t a), w2 as (select q.p as p from w1 q) "
                  "select q.p as p, count(*) as n from w2 q group by q.p"}[where] % v
    return {"steps": steps, "bad_sql": bad, "bad_at": rng.randrange(len(steps) + 1), "maybe": True}


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    rounds = []
    for n in range(rng.choice([1, 1, 2, 3])):
        r = {"bad": bad_script(rng, tables, n), "good": hist.any_steps(rng, tables, rng.choice([1, 2]), 0.75, "g%d_" % n),
             "context": rng.random() < 0.3, "one_script": rng.random() < 0.4}
        rounds.append(r)
    session = harness.pick_session(rng, len(tables["t"]))
    return {"tables": tables, "rounds": rounds, "session": session, "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30)}


def script(bad):
    texts = [hist.sql(s) for s in bad["steps"]]
    if "bad_sql" in bad:
        texts.insert(bad["bad_at"], bad["bad_sql"])
    return "; ".join(texts)


def execute(plan):
    out = {"violations": [], "stats": {}}
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    log = []
    for r in plan["rounds"]:
        bad = r["bad"]
        text = script(bad)
        if "aim" in bad and "at" not in bad:
            # where in the failing script: a relative position over the number of operations it would take
            bad["at"] = w.ops + 1 + int(bad["aim"][0]["frac"] * 12)
        if "aim" in bad:
            w.faults = {bad["at"]: dict(bad["aim"][0], at=bad["at"])}
        target = e.context() if r["context"] else e
        raised = None
        log.append("[must fail] " + text)
        w.note("sql", q=text)
        try:
            target.execute(text)
        except BaseException as ex:
            raised = ex
        w.faults = {}
        if raised is not None:
            w.reach.add("after_" + type(raised).__name__)
        if raised is None and "bad_sql" in bad and not bad.get("maybe"):
            out["violations"].append(violation("error_swallowed", "session %s: %s\n  returned normally" % (plan["session"], text)))
            break
        state = hist.clone(w.tables)
        good = [hist.sql(s) for s in r["good"]]
        problem = None
        for text in (["; ".join(good)] if r["one_script"] else good):
            log.append(text)
            try:
                harness.run_sql(w, target, text)
            except BaseException as ex:
                problem = "raised " + harness.err(ex)
                break
        for s in r["good"] if not problem else ():
            if s["op"] == "query":
                problem = problem or hist.query_problem(s, state, w.tables.get(s["target"], []))
                state[s["target"]] = w.tables.get(s["target"], [])
            else:
                state = hist.apply(s, state)
        for t in sorted(set(w.tables) | set(state)) if not problem else ():
            bad_table = hist.same(w.tables.get(t, []), state.get(t, []))
            problem = problem or (bad_table and "table %s: %s" % (t, bad_table))
        harness.saw(w, w.tables)
        if problem:
            out["violations"].append(violation("failure_left_traces", "session %s storage %s: %s\n  %s" % (
                plan["session"], plan["storage"], "\n    ;; ".join(log), problem)))
            break
        out["stats"]["rounds"] = out["stats"].get("rounds", 0) + 1
    out["nontrivial"] = any(k.startswith("after_") for k in w.reach)
    out["sample"] = {"log": log[-4:]}
    e.close()
    return out


def shrink(plan):
    import copy
    yield from harness.shrink_lists(plan, [("rounds",)], 1)
    for i, r in enumerate(plan["rounds"]):
        yield from harness.shrink_lists(plan, [("rounds", i, "good"), ("rounds", i, "bad", "steps")])
    yield from harness.shrink_lists(plan, [("tables", t) for t in plan["tables"]])
    for key in list(plan["session"]):
        n = copy.deepcopy(plan)
        n["session"].pop(key)
        yield n
