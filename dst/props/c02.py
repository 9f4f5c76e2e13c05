"""C02: ORDER BY, LIMIT, OFFSET and window functions act on the whole result, not on a page of it."""
from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "one generated statement with ORDER BY / LIMIT / OFFSET / DISTINCT / window functions, executed over a simulated storage and judged against the reference model"
REAL = ["syncanysql parser, compiler, executor, query taskers, window calculaters", "syncany core tasker, loaders, outputers"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["the storage driver honours filters, ordering, offset and limit it is given",
               "without ORDER BY any subset of the right size is a correct LIMIT result",
               "NULL sorts before every value; LIMIT 0 means no limit (documented behaviour of the tool)",
               "RANK, DENSE_RANK, PERCENT_RANK and CUME_DIST are compared only between batch sizes, their values are pinned by existing tests",
               "SUM and AVG over no non-NULL value are 0"]

RANKS = ["rank", "dense_rank", "percent_rank", "cume_dist"]


def generate(rng, index, tier):
    tables = gen.tables(rng, ("t",) if rng.random() < 0.7 else ("t", "u"))
    n = len(tables["t"])
    roll = rng.random()
    plan = {"tables": tables, "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng),
            "scan_seed": rng.randrange(1 << 30), "target": rng.choice(["s", "s", "mem"])}
    if "u" in tables:
        # a join that matches several rows per source row
        q = {"from": {"name": "s.t", "alias": "a"},
             "joins": [{"kind": rng.choice(["left", "inner"]), "src": {"name": "s.u", "alias": "b", "cols": gen.COLS["u"]},
                        "on": [[["c", "a", "k"], ["c", "b", "k"]]], "where": []}],
             "where": gen.where(rng, "a", "t", 0.3),
             "select": [{"e": ["c", "a", "id"], "as": "p"}, {"e": ["c", "b", "uid"], "as": "o"},
                        {"e": gen.num_col(rng, "b", "u"), "as": "c0"}]}
        q["joins"][0]["src"]["cols"] = list(gen.COLS["u"])
        if rng.random() < 0.4:
            for i in range(rng.choice([1, 1, 2])):
                win = gen.joined_window_expr(rng)
                q["select"].append({"e": gen.window_calculate(rng, win, lambda: gen.num_col(rng, *rng.choice([("a", "t"), ("b", "u")])))
                                    if rng.random() < 0.4 else win, "as": "w%d" % i})
        gen.order_limit(rng, q, "p", [s["as"] for s in q["select"][1:]])
        if q.get("order") and rng.random() < 0.6 and ["o", 1] not in q["order"] and ["o", -1] not in q["order"]:
            q["order"].append(["o", 1])
        plan["query"] = q
    elif roll < 0.3:
        q = gen.plain_query(rng)
        plan["query"] = gen.order_limit(rng, q, "p", [s["as"] for s in q["select"][1:]])
    elif roll < 0.45:
        q = gen.distinct_query(rng)
        plan["query"] = gen.order_limit(rng, q, q["select"][0]["as"], [s["as"] for s in q["select"][1:]], 0.8)
    elif roll < 0.65:
        q = gen.aggregate_query(rng, fns=["count*", "count", "sum", "min", "max", "avg", "countd"])
        while not q.get("group"):
            q = gen.aggregate_query(rng, fns=["count*", "count", "sum", "min", "max", "avg", "countd"])
        if rng.random() < 0.25:
            q["distinct"] = True
            if len(q["select"]) > 2:
                q["select"].pop(0)
            names = [s["as"] for s in q["select"]]
            q.pop("having", None)
            cands = [s["as"] for s in q["select"] if s["e"][0] == "agg" and s["e"][1] in ("count*", "count", "sum", "countd")]
            if rng.random() < 0.3 and cands:
                q["having"] = gen.having(rng, cands)
        names = [s["as"] for s in q["select"]]
        plan["query"] = gen.order_limit(rng, q, names[0], names[1:], 0.8)
    else:
        q = {"from": {"name": "s.t", "alias": "a"}, "where": gen.where(rng, "a", "t", 0.3),
             "select": [{"e": ["c", "a", "id"], "as": "p"}]}
        if rng.random() < 0.85:
            for i in range(rng.choice([1, 1, 2, 3])):
                win = gen.window_expr(rng)
                q["select"].append({"e": gen.window_calculate(rng, win, lambda: gen.num_col(rng, "a", "t"))
                                    if rng.random() < 0.3 else win, "as": "w%d" % i})
            if rng.random() < 0.2:
                q["distinct"] = True
                q["select"][0] = {"e": gen.any_col(rng, "a", "t"), "as": "p"}
            if rng.random() < 0.2:
                gen.name_windows(rng, q["select"])
            gen.order_limit(rng, q, "p", [s["as"] for s in q["select"][1:]], 0.4, 0.5)
        else:
            plan["rank"] = {"fn": rng.choice(RANKS), "part": rng.choice(["g", "k", None]), "order": rng.choice(["k", "v", "id"]),
                            "desc": rng.random() < 0.5}
        plan["query"] = q
    gen.dress(rng, plan["query"])
    if gen.asks_order(plan["query"]):
        plan["storage"]["cursor"] = "offset"            # paging by a key that is not unique is a recorded finding
    return plan


def rank_sql(r):
    return "select a.id as p, %s() over (%sorder by a.%s%s) as w from s.t a" % (
        r["fn"], "partition by a.%s " % r["part"] if r["part"] else "", r["order"], " desc" if r["desc"] else "")


def run(w, e, plan, text):
    if plan["target"] == "mem":
        e.pop_memory_datas("out")
        harness.run_sql(w, e, "insert into `out` " + text)
        got = e.get_memory_datas("out")
    else:
        w.tables.pop("out", None)
        harness.run_sql(w, e, "insert into s.out " + text)
        got = w.tables.get("out", [])
    harness.saw(w, got)
    return got


def execute(plan):
    w = harness.world(plan)
    e = harness.engine()
    out = {"violations": [], "stats": {}}
    source = {"s." + t: [dict(r) for r in rows] for t, rows in plan["tables"].items()}
    q, rank = plan["query"], plan.get("rank")
    text = rank_sql(rank) if rank else model.sql(q)
    try:
        if rank:
            want = run(w, e, plan, text)
        harness.set_session(e, plan["session"])
        got = run(w, e, plan, text)
    except Exception as ex:
        out["violations"].append(violation("statement_failed", "session %s: %s\n  raised %s" % (plan["session"], text, harness.err(ex))))
        return out
    if rank:
        key = lambda r: r["p"]
        bad = None if sorted(want, key=key) == sorted(got, key=key) else "unbatched %s batched %s" % (want, got)
    else:
        bad = model.judge(q, source, got)
    if bad:
        out["violations"].append(violation("wrong_rows", "session %s: %s\n  %s" % (plan["session"], text, bad)))
    batch = plan["session"].get("batch", 0)
    n = len(source["s.t"])
    if batch and n > batch and q.get("limit"):
        w.reach.add("limit_across_batches")
    if batch and n > batch and q.get("order"):
        w.reach.add("order_across_batches")
    if batch and n > batch and any(model.has_win(s["e"]) for s in q["select"]):
        w.reach.add("window_across_batches")
    if q.get("offset") and q["offset"] >= n:
        w.reach.add("offset_past_end")
    out["stats"] = {"rank" if rank else "joined" if q.get("joins") else "window" if any(model.has_win(s["e"]) for s in q["select"])
                    else "aggregate" if q.get("group") else "distinct" if q.get("distinct") else "plain": 1}
    out["sample"] = {"sql": text, "session": plan["session"], "rows": n}
    e.close()
    return out
