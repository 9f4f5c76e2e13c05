"""C01: aggregates equal their definition over the whole input, however it is paged and batched."""
import datetime
import decimal

from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "one generated aggregate / DISTINCT statement executed over a simulated storage and judged against the reference model"
REAL = ["syncanysql parser, compiler, executor, taskers, aggregate calculaters", "syncany core tasker, loaders, outputers"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["the storage driver honours filters, ordering, offset and limit it is given",
               "SUM/AVG/bit aggregates of no non-NULL value may be 0 or NULL; an aggregate without GROUP BY over no row may return no row",
               "the order of elements inside GROUP_CONCAT/GROUP_ARRAY/JSON_ARRAYAGG is free"]


def generate(rng, index, tier):
    tables = gen.tables(rng, ("t",))
    q = gen.distinct_query(rng) if rng.random() < 0.15 else gen.aggregate_query(rng)
    gen.dress(rng, q)
    n = len(tables["t"])
    dtype = rng.choice(sorted(TYPES)) if rng.random() < 0.35 and not q.get("distinct") else None
    if dtype:
        values = rng.choice([[3, 5, 6, 9, 12], [None, 2, 4, 7], [0, None, 1, 30], [8]])
        for r in tables["t"]:
            r["d"] = rng.choice(values)
        column = ["c", q["from"]["alias"], "d"]
        fns = ["count", "countd", "min", "max", "garray", "guniq", "gconcat", "jarr"] + (["sum", "avg"] * 3 if dtype in ("dec", "float") else [])
        for i in range(rng.choice([1, 2, 3])):
            fn = rng.choice(fns)
            if fn == "countd" and any(s["e"][:2] == ["agg", "countd"] for s in q["select"]):
                fn = "count"
            value = column
            if fn not in ("gconcat", "jarr") and dtype in ("dec", "float") and rng.random() < 0.5:      # decimals next to floats
                value = rng.choice([["coalesce", column, ["l", 0.5]], ["*", column, ["l", 0.5]], ["+", column, gen.num_col(rng, column[1], "t")],
                                    ["if", ["cmp", ">", gen.num_col(rng, column[1], "t"), ["l", 2]], column, ["l", 1.5]]])
            q["select"].append({"e": ["agg", fn, value], "as": "d%d" % i})
        if q.get("group") and rng.random() < 0.3:
            q["group"].append(column)
            q["select"].insert(0, {"e": column, "as": "gd"})
        if rng.random() < 0.3:
            q["where"] = q.get("where", []) + [["isnull", column, rng.random() < 0.3]]
    return {"dtype": dtype, "tables": tables, "query": q, "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng),
            "scan_seed": rng.randrange(1 << 30), "repeat": rng.choice([1, 1, 1, 2])}


TYPES = {"dec": lambda n: decimal.Decimal(n) / 4, "float": lambda n: n / 4.0, "date": lambda n: datetime.date(2024, 2, 20) + datetime.timedelta(n),
         "datetime": lambda n: datetime.datetime(2023, 12, 31, 23, 50, 7) + datetime.timedelta(minutes=n),
         "time": lambda n: datetime.time(n // 60, n % 60, 5), "str": lambda n: "%02d" % n}


def typed(plan):
    """The plan's tables with the numbers of column d as values of the plan's type."""
    if not plan.get("dtype"):
        return plan["tables"]
    make = TYPES[plan["dtype"]]
    return {name: [dict(r, d=make(r["d"]) if r.get("d") is not None else None) for r in rows] for name, rows in plan["tables"].items()}


def execute(plan):
    tables = typed(plan)
    w = harness.world(plan, tables)
    e = harness.engine()
    out = {"violations": [], "stats": {}}
    harness.set_session(e, plan["session"])
    q = plan["query"]
    text = model.sql(q)
    source = {"s.t": [dict(r) for r in tables["t"]]}
    for _ in range(plan.get("repeat", 1)):
        w.tables.pop("out", None)
        try:
            harness.run_sql(w, e, "insert into s.out " + text)
        except Exception as ex:
            out["violations"].append(violation("statement_failed", "%s\n  raised %s" % (text, harness.err(ex))))
            break
        got = w.tables.get("out", [])
        harness.saw(w, got)
        bad = judge(q, source, got)
        if bad:
            out["violations"].append(violation("wrong_aggregate", "session %s: %s\n  %s" % (plan["session"], text, bad)))
            break
    batch = plan["session"].get("batch", 0)
    if batch and len(source["s.t"]) > 2 * batch:
        w.reach.add("at_least_three_batches")
    if q.get("having"):
        w.reach.add("having")
    if any(s["e"][:2] == ["agg", "countd"] for s in q["select"]) and batch:
        w.reach.add("count_distinct_in_batches")
    out["stats"] = {"batched" if batch else "unbatched": 1, "distinct" if q.get("distinct") else "aggregate": 1}
    out["sample"] = {"sql": text, "session": plan["session"], "rows": len(source["s.t"])}
    e.close()
    return out


def judge(q, source, got):
    want = model.full_rows(q, model.context(source))
    ks = model.kinds(q)
    if not q.get("group") and not q.get("distinct") and not got and not matching(q, source):
        return None          # an aggregate over no row: no row is accepted
    return model.judge_rows(want, q, ks, got)


def matching(q, source):
    ctx = model.context(source)
    return [e for e in model.row_envs(q, ctx, None) if all(model.truth(c, e, ctx) for c in q.get("where", ()))]
