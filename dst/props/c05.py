"""C05: a subquery, CTE or UNION means its own result substituted for it, in every later statement too."""
import copy

from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "one session of one to three generated statements with nested subqueries, CTEs or UNION over simulated storages, judged against the reference model"
REAL = ["syncanysql parser, compiler, executor, query/multi/intermediate taskers, temporary memory collections", "syncany core loaders, outputers, memory database"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["the storage driver honours filters, ordering, offset and limit it is given",
               "parts of a UNION with the same column names list them in the same order; ORDER BY and LIMIT after a part belong to that part",
               "a correlated scalar subquery that matches no row is NULL",
               "comparing with a scalar subquery that returns no row is left undefined (NULL sorts lowest in memory, storage decides otherwise)"]


def fields(q):
    while q.get("union"):
        q = q["union"][0]
    return [s["as"] for s in q["select"]]


def inner(rng, alias, table, depth=0):
    """A query whose first output is numeric; returns (query, numeric outputs, all outputs)."""
    roll = rng.random()
    if roll < 0.35:
        q = gen.plain_query(rng, alias, table)
        if rng.random() < 0.4:
            q["order"] = [["p", rng.choice([1, -1])]]
            q["limit"] = rng.choice([1, 2, 3, 5])
            if rng.random() < 0.4:
                q["offset"] = rng.choice([1, 2])
        nums = ["p"]
    elif roll < 0.75:
        g = rng.choice({"t": ["k", "g"], "u": ["k", "r"]}[table])
        q = {"from": {"name": "s." + table, "alias": alias}, "where": gen.where(rng, alias, table, 0.4),
             "select": [{"e": ["c", alias, g], "as": "p"}], "group": [["c", alias, g]]}
        for i in range(rng.choice([1, 2])):
            q["select"].append({"e": gen.agg_expr(rng, alias, table, ["count*", "count", "sum", "max", "min"]), "as": "c%d" % i})
        if rng.random() < 0.3 and (q["select"][1]["e"][1] != "max" and q["select"][1]["e"][1] != "min" or gen.COLS[table][q["select"][1]["e"][2][2]] == "n"):
            q["having"] = [["cmp", rng.choice([">", ">="]), ["c", "", "c0"], ["l", rng.choice([1, 2])]]]
        nums = ["p"]
    elif roll < 0.85 and depth < 2:
        sub, _, outs = inner(rng, alias + "i", table, depth + 1)
        q = {"from": {"sub": sub, "alias": alias}, "where": [["cmp", rng.choice([">", ">="]), ["c", alias, "p"], ["l", rng.choice([1, 3, 6])]]],
             "select": [{"e": ["c", alias, o], "as": o} for o in fields(sub)]}
        nums = ["p"]
    else:
        c = rng.choice({"t": ["k", "g"], "u": ["k", "w"]}[table])
        q = {"from": {"name": "s." + table, "alias": alias}, "where": gen.where(rng, alias, table, 0.4), "distinct": True,
             "select": [{"e": ["c", alias, c], "as": "p"}]}
        nums = ["p"]
    q["from"]["name"] = q["from"].get("name") and "s." + table
    if not q["from"]["name"]:
        q["from"].pop("name")
    return q, nums, fields(q)


def on_top(rng, src):
    """A statement over a derived source with columns p (+ others)."""
    names = src["cols"]
    q = {"from": {k: v for k, v in src.items() if k != "cols"}, "where": []}
    if rng.random() < 0.4:
        q["where"] = [rng.choice([["cmp", rng.choice([">", ">=", "="]), ["c", "q", "p"], ["l", rng.choice([0, 1, 2, 4])]],
                                  ["isnull", ["c", "q", "p"], True], ["in", ["c", "q", "p"], [1, 2, 5]]])]
    roll = rng.random()
    if roll < 0.35:
        q["select"] = [{"e": ["agg", "count*"], "as": "n"}, {"e": ["agg", rng.choice(["sum", "max", "min"]), ["c", "q", "p"]], "as": "m"}]
        if rng.random() < 0.5:
            q["select"].insert(0, {"e": ["c", "q", rng.choice(names)], "as": "b"})
            q["group"] = [copy.deepcopy(q["select"][0]["e"])]
    else:
        q["select"] = [{"e": ["c", "q", o], "as": o} for o in names]
        if rng.random() < 0.3:
            q["select"].append({"e": [rng.choice(["+", "*"]), ["c", "q", "p"], ["l", 2]], "as": "ex"})
        if rng.random() < 0.3:
            q["order"] = [["p", rng.choice([1, -1])]]
            if rng.random() < 0.6:
                q["limit"] = rng.choice([1, 2, 3])
    return q


def correlated(rng, q):
    """A subquery answered row by row: which rows, aggregates, joins and LIMIT belong to each outer row on its own."""
    outer = ["c", "a", rng.choice(["k", "id"])]
    if rng.random() < 0.3:
        # the outer row comes from a join
        q["joins"] = [{"kind": rng.choice(["left", "inner"]), "src": {"name": "s.u", "alias": "j", "cols": list(gen.COLS["u"])},
                       "on": [[["c", "a", "k"], ["c", "j", "k"]]], "where": []}]
        q["select"].append({"e": ["c", "j", "uid"], "as": "ju"})
        if rng.random() < 0.6:
            outer = ["c", "j", rng.choice(["k", "r", "uid"])]
    table = rng.choice(["u", "u", "t"])
    sub = {"from": {"name": "s." + table, "alias": "b"}, "where": gen.where(rng, "b", table, 0.3)[:1]}
    keys = {"u": ["k", "r", "uid"], "t": ["k", "id"]}[table]
    value = ["c", "b", rng.choice({"u": ["w", "uid", "r"], "t": ["v", "id", "k"]}[table])]
    if rng.random() < 0.3:
        sub["joins"] = [{"kind": rng.choice(["left", "inner"]), "src": {"name": "s.u", "alias": "d", "cols": list(gen.COLS["u"])},
                         "on": [[["c", "b", "k"], ["c", "d", rng.choice(["k", "r", "uid"])]]], "where": []}]
        if rng.random() < 0.5:
            value = ["c", "d", rng.choice(["w", "uid"])]
        key = ["c", "d", rng.choice(["k", "r"])] if rng.random() < 0.4 else ["c", "b", rng.choice(keys)]
    else:
        key = ["c", "b", rng.choice(keys)]
    on = ["cmp", "=", key, outer] if rng.random() < 0.7 else ["cmp", "=", outer, key]
    sub["where"] = sub["where"] + [on] if rng.random() < 0.5 else [on] + sub["where"]
    shape = rng.random()
    if shape < 0.35:
        sub["select"] = [{"e": value, "as": "x"}]
        sub["order"] = [["x", rng.choice([1, -1])]]
        sub["limit"] = 1
        if rng.random() < 0.4:
            sub["offset"] = rng.choice([1, 2])
        if rng.random() < 0.2:
            sub["distinct"] = True
    else:
        fn = rng.choice(["count*", "sum", "max", "min", "count", "avg", "countd"])
        agg = ["agg", fn] if fn == "count*" else ["agg", fn, value]
        if shape < 0.65:
            agg = [rng.choice(["+", "-", "*"]), agg, rng.choice([["l", 2], ["l", 3], ["agg", "count*"]])]
        sub["select"] = [{"e": agg, "as": "x"}]
        if rng.random() < 0.1:
            sub["limit"] = 1
    e = ["sub", sub]
    if rng.random() < 0.3:
        e = rng.choice([["coalesce", e, ["l", 77]], ["+", e, gen.num_col(rng, "a", "t")]])
    q["select"].append({"e": e, "as": "sq"})


def with_cond(rng):
    """t filtered by subqueries in WHERE, or with scalar subqueries in the select list."""
    q = gen.plain_query(rng, "a", "t")
    roll = rng.random()
    if rng.random() < 0.35:
        correlated(rng, q)
        return q
    if roll < 0.3:
        col = rng.choice(["k", "uid", "r"])
        sub = {"from": {"name": "s.u", "alias": "b"}, "where": gen.where(rng, "b", "u", 0.6), "select": [{"e": ["c", "b", col], "as": col}]}
        if rng.random() < 0.3:
            sub = {"from": {"name": "s.u", "alias": "b"}, "where": gen.where(rng, "b", "u", 0.3), "group": [["c", "b", "k"]],
                   "select": [{"e": ["c", "b", "k"], "as": "k"}]}
        q["where"] = q["where"][:1] + [["insub", ["c", "a", rng.choice(["k", "id", "g"])], sub]]
    elif roll < 0.5:
        sub = {"from": {"name": "s.u", "alias": "b"}, "where": [["cmp", "=", ["c", "b", "k"], ["c", "a", rng.choice(["k", "id"])]]],
               "select": [{"e": ["c", "b", "uid"], "as": "uid"}]}
        if rng.random() < 0.4:
            sub["where"].append(["cmp", ">", ["c", "b", "w"], ["l", rng.choice([1, 2, 3])]])
        q["where"] = q["where"][:1] + [["exists", sub]]
    elif roll < 0.8:
        fn = rng.choice(["count*", "sum", "max", "min", "count", "avg"])
        agg = ["agg", fn] if fn == "count*" else ["agg", fn, ["c", "b", rng.choice(["w", "uid"])]]
        sub = {"from": {"name": "s.u", "alias": "b"}, "where": [["cmp", "=", ["c", "b", "k"], ["c", "a", rng.choice(["k", "id"])]]],
               "select": [{"e": agg, "as": "x"}]}
        q["select"].append({"e": ["sub", sub], "as": "sq"})
    else:
        fn = rng.choice(["count*", "sum", "max", "min"])
        agg = ["agg", fn] if fn == "count*" else ["agg", fn, ["c", "b", "w"]]
        sub = {"from": {"name": "s.u", "alias": "b"}, "where": gen.where(rng, "b", "u", 0.4), "select": [{"e": agg, "as": "x"}]}
        if rng.random() < 0.5:
            q["select"].append({"e": ["sub", sub], "as": "sq"})
        else:
            sub["select"] = [{"e": ["agg", rng.choice(["max", "min", "count*"])] + ([["c", "b", "w"]]), "as": "x"}]
            if sub["select"][0]["e"][1] == "count*":
                sub["select"][0]["e"] = ["agg", "count*"]
            q["where"] = [["cmp", rng.choice([">", "<", "=", ">="]), ["c", "a", "id"], ["sub", sub]]]
    return q


def rename(q, names, rng):
    """Gives the columns of a part of a UNION other names: the first part's count."""
    new = rng.sample(["z", "y", "x", "p", "c0", "a1"], len(names))
    if sorted(new) == sorted(names):
        return
    as_ = dict(zip(names, new))
    for s in q["select"]:
        s["as"] = as_[s["as"]]
    q["order"] = [[as_[c], d] for c, d in q["order"]] if q.get("order") else None
    if not q["order"]:
        q.pop("order")


def union(rng):
    n = rng.choice([2, 2, 3, 4])
    names = ["p"] + ["c%d" % i for i in range(rng.choice([0, 1, 2]))]
    parts = []
    for _ in range(n):
        table = rng.choice(["t", "u"])
        if rng.random() < 0.25:
            sub = gen.plain_query(rng, "a", table)
            sub["from"]["name"] = "s." + table
            sub["select"] = sub["select"][:1] + [{"e": gen.num_col(rng, "a", table), "as": x} for x in names[1:]]
            if rng.random() < 0.3:
                sub["order"] = [["p", rng.choice([1, -1])]]
                sub["limit"] = rng.choice([1, 2, 4])
            q = {"from": {"sub": sub, "alias": rng.choice(["q", "q", "q2"])}, "where": []}
            q["select"] = [{"e": ["c", q["from"]["alias"], x], "as": x} for x in names]
            if rng.random() < 0.3:
                q["where"] = [["cmp", rng.choice([">", "<"]), ["c", q["from"]["alias"], "p"], ["l", rng.choice([1, 2, 5])]]]
        elif rng.random() < 0.15:
            q = gen.plain_query(rng, "a", table)
            q["from"]["name"] = "s." + table
            q["select"] = q["select"][:1] + [{"e": gen.num_col(rng, "a", table), "as": x} for x in names[1:]]
            q["order"] = [["p", rng.choice([1, -1])]]
            q["limit"] = rng.choice([1, 2, 4])
        elif rng.random() < 0.3:
            g = {"t": "k", "u": "r"}[table]
            q = {"from": {"name": "s." + table, "alias": "a"}, "where": gen.where(rng, "a", table, 0.3), "group": [["c", "a", g]],
                 "select": [{"e": ["c", "a", g], "as": "p"}]}
            q["select"] += [{"e": gen.agg_expr(rng, "a", table, ["count*", "sum", "max"]), "as": x} for x in names[1:]]
        else:
            q = {"from": {"name": "s." + table, "alias": "a"}, "where": gen.where(rng, "a", table, 0.4),
                 "select": [{"e": gen.num_col(rng, "a", table), "as": x} for x in names]}
        if parts and rng.random() < 0.4:
            rename(q, names, rng)
        parts.append(q)
    return {"union": parts, "ops": [rng.random() < 0.3 for _ in parts[1:]]}


def recursive(rng):
    """WITH RECURSIVE: some start rows, each followed by a chain of derived rows, then a statement over all of them."""
    step, top = rng.choice([1, 2, 3]), rng.choice([4, 7, 10])
    if rng.random() < 0.3:
        start = {"select": [{"e": ["l", rng.choice([0, 1, 5])], "as": "p"}, {"e": ["l", 1], "as": "m"}]}
    else:
        start = {"from": {"name": "s.t", "alias": "a"}, "where": gen.where(rng, "a", "t", 0.5),
                 "select": [{"e": ["c", "a", "id"], "as": "p"}, {"e": ["c", "a", "k"], "as": "m"}]}
    follow = {"from": {"name": "r1", "alias": "z"}, "where": [["cmp", rng.choice(["<", "<="]), ["c", "z", "p"], ["l", top]]],
              "select": [{"e": ["+", ["c", "z", "p"], ["l", step]], "as": "p"},
                         {"e": rng.choice([["c", "z", "m"], ["+", ["c", "z", "m"], ["l", 1]], ["*", ["c", "z", "m"], ["l", 2]]]), "as": "m"}]}
    ctes = [{"name": "r1", "recursive": True, "query": {"union": [start, follow]}}]
    name, names = "r1", ["p", "m"]
    if rng.random() < 0.3:
        ctes.append({"name": "w3", "query": {"from": {"name": "r1", "alias": "q"}, "where": [], "group": [["c", "q", "p"]],
                                             "select": [{"e": ["c", "q", "p"], "as": "p"}, {"e": ["agg", "count*"], "as": "m"}]}})
        name = "w3"
    q = on_top(rng, {"name": name, "alias": "q", "cols": names})
    q["ctes"] = ctes
    return q


def statement(rng):
    roll = rng.random()
    if roll < 0.3:
        sub, _, names = inner(rng, "a", rng.choice(["t", "u"]))
        return on_top(rng, {"sub": sub, "alias": "q", "cols": names})
    if roll < 0.55:
        return with_cond(rng)
    if roll < 0.7:
        q = union(rng)
        if rng.random() < 0.3:
            return on_top(rng, {"sub": q, "alias": "q", "cols": fields(q)})
        return q
    if roll < 0.78:
        return recursive(rng)
    name = rng.choice(["w1", "w2"])
    first, _, names = inner(rng, "a", rng.choice(["t", "u"]))
    ctes = [{"name": name, "query": first}]
    if rng.random() < 0.4:
        second = on_top(rng, {"name": name, "alias": "q", "cols": names})
        if "p" not in fields(second):
            second["select"].append({"e": ["agg", "count*"], "as": "p"})
        ctes.append({"name": "w3", "query": second})
        name, names = "w3", fields(second)
    if rng.random() < 0.2:
        other, _, n2 = inner(rng, "a", "t")
        q = {"union": [on_top(rng, {"name": name, "alias": "q", "cols": ["p"]}), on_top(rng, {"name": name, "alias": "q", "cols": ["p"]})]}
        for x in q["union"]:
            x.pop("group", None), x.pop("order", None), x.pop("limit", None)
            x["select"] = [{"e": ["c", "q", "p"], "as": "p"}]
    else:
        q = on_top(rng, {"name": name, "alias": "q", "cols": names})
    q["ctes"] = ctes
    return q



def generate(rng, index, tier):
    tables = gen.tables(rng, ("t", "u"))
    statements = [statement(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    session = harness.pick_session(rng, len(tables["t"]))
    return {"tables": tables, "statements": statements, "session": session, "storage": harness.pick_storage(rng),
            "scan_seed": rng.randrange(1 << 30), "one_script": rng.random() < 0.4}


def agg_over_nothing(q, source):
    """An aggregate without GROUP BY over no row: one row of empty aggregates, or no row."""
    while q.get("union"):
        q = q["union"][0]
    return not q.get("group") and any(model.has_agg(s["e"]) for s in q["select"])


def execute(plan):
    w = harness.world(plan)
    e = harness.engine()
    out = {"violations": [], "stats": {}}
    harness.set_session(e, plan["session"])
    source = {"s." + t: [dict(r) for r in rows] for t, rows in plan["tables"].items()}
    texts = ["insert into s.out%d %s" % (i, model.sql(q)) for i, q in enumerate(plan["statements"])]
    scripts = ["; ".join(texts)] if plan.get("one_script") else texts
    try:
        for text in scripts:
            harness.run_sql(w, e, text)
    except Exception as ex:
        out["violations"].append(violation("statement_failed", "session %s: %s\n  raised %s" % (plan["session"], text, harness.err(ex))))
        return out
    for i, q in enumerate(plan["statements"]):
        got = w.tables.get("out%d" % i, [])
        harness.saw(w, got)
        bad = judge(q, source, got)
        if bad:
            out["violations"].append(violation("wrong_composition", "session %s: %s\n  %s" % (plan["session"], texts[i], bad)))
    out["stats"] = {"statements": len(texts)}
    for q in plan["statements"]:
        k = "cte" if q.get("ctes") else "union" if q.get("union") else "derived" if "sub" in q["from"] else "condition"
        out["stats"][k] = out["stats"].get(k, 0) + 1
    if plan["session"].get("batch") and plan["session"]["batch"] < len(source["s.t"]):
        w.reach.add("several_batches")
    if len(texts) > 1:
        w.reach.add("several_statements_one_session")
    out["sample"] = {"sql": texts, "session": plan["session"]}
    e.close()
    return out


def judge(q, source, got):
    ctx = model.context(source)
    if undefined(q, source):
        return None
    want = model.full_rows(q, ctx)
    if q.get("limit") is None and agg_over_nothing(q, source) and len(want) == 1 and not got:
        first = q
        n = first["select"][[s["e"][:2] == ["agg", "count*"] for s in first["select"]].index(True)]["as"] if any(
            s["e"][:2] == ["agg", "count*"] for s in first["select"]) else None
        if n is None or want[0][n] == 0:
            return None
    return model.judge_rows(want, q, model.kinds(q), got)


def undefined(q, source):
    """A comparison with a scalar subquery that gives no value."""
    ctx = model.context(source)
    return any(c[0] == "cmp" and c[3][0] == "sub" and any(v is None for r in model.evaluate(c[3][1], ctx) or [{"x": None}] for v in r.values())
               for c in q.get("where") or ())
