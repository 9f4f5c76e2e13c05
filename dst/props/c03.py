"""C03: a join returns every matching combination once, whatever the page and lookup sizes."""
import copy

from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "one generated two- or three-table join (plain, filtered or aggregated) over simulated storages, judged against the reference model"
REAL = ["syncanysql parser, compiler, executor, query taskers", "syncany core join loading (foreign-key cache, yield), aggregation, outputers"]
STUB = ["storage server (simulated driver, two databases)", "wall clock", "unique ids"]
ASSUMPTIONS = ["a plain JOIN keeps unmatched left rows (documented behaviour of the tool), INNER JOIN drops them",
               "join keys are never NULL on the joined side",
               "the storage driver honours filters, ordering, offset and limit it is given"]


def join_src(db, table, alias):
    return {"name": "%s.%s" % (db, table), "alias": alias, "cols": list(gen.COLS[table])}


def generate(rng, index, tier):
    three = rng.random() < 0.45
    tables = gen.tables(rng, ("t", "u", "x") if three else ("t", "u"))
    n = len(tables["t"])
    db = rng.choice(["s", "s2"])
    kind = rng.choice(["left", "left", "inner", "right", ""])
    key = rng.choice(["k", "k", "k", "g", "id"])
    if key == "g" and kind == "right":
        key = "k"
    left = [["c", "a", key], ["c", "b", "k"]]
    if rng.random() < 0.1:
        left = [["+", ["c", "a", "k"], ["l", 1]], ["c", "b", "k"]]
    joins = [{"kind": kind, "src": join_src(db, "u", "b"), "on": [left if rng.random() < 0.7 else left[::-1]], "where": []}]
    if rng.random() < 0.25:
        joins[0]["where"] = [rng.choice([["cmp", rng.choice([">", "<", "=", ">="]), ["c", "b", "w"], ["l", rng.choice([1, 2, 3, 10])]],
                                         ["in", ["c", "b", "r"], [1, 3]]])]
        if rng.random() < 0.4:
            joins[0]["where"] = [rng.choice([
                ["cmp", rng.choice([">", "<", ">="]), ["c", "a", rng.choice(["v", "id"])], ["l", rng.choice([1, 3, 8])]],
                ["cmp", rng.choice([">", "<"]), ["c", "b", "w"], ["+", ["c", "a", "id"], ["l", rng.choice([1, 5])]]],
                ["or", ["cmp", "=", ["c", "b", "w"], ["l", 1]], ["cmp", "=", ["c", "a", "g"], ["l", 1]]],
                ["between", ["c", "b", "w"], 1, 5]])]
        elif rng.random() < 0.4:
            joins[0]["where"] = [rng.choice([
                ["not", ["cmp", "=", ["c", "b", "w"], ["l", rng.choice([1, 2, 10])]]],
                ["not", ["or", ["cmp", "=", ["c", "b", "w"], ["l", 1]], ["cmp", "=", ["c", "b", "r"], ["l", 3]]]],
                ["notbetween", ["c", "b", "w"], 2, 9],
                ["like", ["c", "a", "h"], rng.choice(["%a%", "_", "%-%"])],
                ["isnull", ["c", "a", "g"], rng.random() < 0.5],
                ["insub", ["c", "b", "r"], {"from": {"name": "s.u", "alias": "y"}, "where": gen.where(rng, "y", "u", 0.7),
                                            "select": [{"e": ["c", "y", "uid"], "as": "uid"}]}],
                ["cmp", rng.choice(["=", ">"]), ["c", "b", "uid"], ["sub", {"from": {"name": "s.u", "alias": "y"}, "where": [],
                 "select": [{"e": ["agg", rng.choice(["max", "min"]), ["c", "y", "r"]], "as": "m"}]}]]])]
            if kind == "right" and joins[0]["where"][0][0] in ("like", "isnull"):
                joins[0]["where"] = []
    if kind in ("left", "inner") and rng.random() < 0.15:
        # several conditions beside the key that each decide some rows
        joins[0]["where"] += [["cmp", rng.choice([">", "<", "!=", "<="]), ["+", rng.choice([["c", "b", "w"], ["c", "b", "uid"], ["c", "b", "r"]]), rng.choice([["c", "a", "id"], ["l", 0], ["l", 1]])],
                               ["l", rng.choice([2, 3, 4, 6, 11])]] for _ in range(rng.choice([2, 3, 3, 4]))]
    if rng.random() < 0.25 and (kind != "right" or key != "id"):      # naming one column twice is refused
        joins[0]["on"].append([["c", "a", rng.choice(["id", "g"])], ["c", "b", rng.choice(["uid", "r"])]])
        if kind == "right":
            joins[0]["on"][-1][0] = ["c", "a", "id"]
    if kind != "inner" and rng.random() < 0.12:
        # no equality of two columns to look rows up by
        joins[0]["on"], joins[0]["where"] = [], [rng.choice([
            ["cmp", rng.choice([">", "<", "<=", "!="]), ["c", "b", rng.choice(["w", "uid"])], rng.choice([["c", "a", "id"], ["+", ["c", "a", "k"], ["l", 1]]])],
            ["cmp", "=", ["+", ["c", "a", "id"], ["c", "b", "uid"]], ["l", rng.choice([3, 5, 20])]],
            ["cmp", "=", ["c", "a", "k"], ["+", ["c", "b", "k"], ["l", 1]]],
            ["or", ["cmp", "=", ["c", "a", "k"], ["c", "b", "k"]], ["cmp", "=", ["c", "a", "id"], ["c", "b", "uid"]]],
            ["cmp", rng.choice(["=", ">"]), ["c", "b" if kind != "right" else "a", "w" if kind != "right" else "v"], ["l", rng.choice([1, 3, 99])]],
            ["cmp", "=", ["c", "b", "uid"] if kind != "right" else ["c", "a", "id"], ["l", rng.choice([1, 2, 99])]]])] + joins[0]["where"]
    if rng.random() < 0.15:
        sub = {"from": {"name": db + ".u", "alias": "z"}, "where": gen.where(rng, "z", "u", 0.6),
               "select": [{"e": ["c", "z", c], "as": c} for c in gen.COLS["u"]]}
        joins[0]["src"] = {"sub": sub, "alias": "b", "cols": list(gen.COLS["u"])}
    third, third_key = "x", "xid"
    if three and rng.random() < 0.4:
        # the table of the first join again: a second walk through it, next to the first or further along
        third, third_key = "u", "uid"
        joins.append({"kind": rng.choice(["left", "inner", ""]), "src": join_src(db if rng.random() < 0.8 else "s", "u", "d"),
                      "on": [rng.choice([[["c", "a", "k"], ["c", "d", "k"]], [["c", "b", "k"], ["c", "d", "k"]],
                                         [["c", "b", "r"], ["c", "d", "k"]], [["c", "b", "r"], ["c", "d", "uid"]],
                                         [["c", "a", "id"], ["c", "d", "r"]]])], "where": []})
        if rng.random() < 0.2:
            second = rng.choice([[["c", "b", "r"], ["c", "d", "r"]], [["c", "a", "g"], ["c", "d", "w"]]])
            if second[1] != joins[1]["on"][0][1]:       # naming one column twice is refused
                joins[1]["on"].append(second)
        if rng.random() < 0.2:
            joins[1]["where"] = [rng.choice([["cmp", "<", ["c", "d", "uid"], ["c", "b", "uid"]],
                                             ["cmp", ">", ["c", "d", "w"], ["c", "a", "v"]], ["in", ["c", "d", "r"], [1, 3]]])]
    elif three:
        joins.append({"kind": rng.choice(["left", "inner", ""]), "src": join_src(rng.choice(["s", "s2"]), "x", "d"),
                      "on": [[["c", "b", "r"], ["c", "d", "xid"]] if rng.random() < 0.7 else [["c", "a", "k"], ["c", "d", "xid"]]], "where": []})
    q = {"from": {"name": "s.t", "alias": "a"}, "joins": joins, "where": []}
    if kind == "right":
        q["where"] = rng.choice([[], [rng.choice([["cmp", ">", ["c", "b", "w"], ["l", rng.choice([1, 2, 3])]],
                                                  ["cmp", "<", ["c", "a", "id"], ["l", rng.choice([3, 8, 20])]],
                                                  ["isnull", ["c", "a", "id"], rng.random() < 0.5]])]])
    else:
        q["where"] = gen.where(rng, "a", "t", 0.3)
        if rng.random() < 0.25:
            q["where"] = q["where"] + [rng.choice([
                ["cmp", rng.choice([">", "<", ">="]), ["c", "b", "w"], ["l", rng.choice([1, 2, 3])]],
                ["isnull", ["c", "b", "uid"], rng.random() < 0.5],
                ["or", ["cmp", "=", ["c", "b", "w"], ["l", 1]], ["cmp", ">", ["c", "a", "id"], ["l", 4]]],
                ["notin", ["c", "b", "r"], [1, 2]], ["in", ["c", "b", "r"], [3]], ["between", ["c", "b", "w"], 1, 5],
                ["cmp", "=", ["c", "b", "r"], ["l", rng.choice([1, 2])]]])]
    if rng.random() < 0.35:
        alias, table = rng.choice([("a", "t"), ("b", "u")])
        group = [["c", "a", rng.choice(["h", "k", "g"])]] if rng.random() < 0.7 else [["c", "b", "r"]]
        q["select"] = [{"e": copy.deepcopy(group[0]), "as": "g0"}]
        for i in range(rng.choice([1, 2, 3])):
            q["select"].append({"e": gen.agg_expr(rng, alias, table, ["count", "count*", "sum", "min", "max", "avg"]), "as": "c%d" % i})
        if rng.random() < 0.2:
            q["select"].append({"e": gen.agg_calculate(rng, alias, table, group), "as": "m0"})
        if rng.random() < 0.6:
            q["select"].append({"e": ["agg", rng.choice(["count", "sum", "max"]), ["c", "b", "uid"]], "as": "n0"})
        if three and rng.random() < 0.6:
            q["select"].append({"e": ["agg", rng.choice(["count", "sum", "max"]), ["c", "d", third_key]], "as": "n1"})
        q["group"] = group
        if rng.random() < 0.2:
            q["group"], q["select"] = [], [s for s in q["select"][1:] if s["as"] != "m0"]
        elif rng.random() < 0.15:
            q["select"] = q["select"][:1]
        elif three and rng.random() < 0.2:
            q["group"] = [["c", "d", third_key]]
            q["select"][0]["e"] = ["c", "d", third_key]
            q["select"] = [s for s in q["select"] if s["as"] != "m0"]
        names = [s["as"] for s in q["select"] if s["e"][0] == "agg" and s["e"][1] in ("count", "count*")]
        if names and q["group"] and rng.random() < 0.2:
            q["having"] = gen.having(rng, names)
    else:
        q["select"] = []
        pool = [("a", "t"), ("b", "u")] + ([("d", third)] if three else [])
        # tables without a column in the result multiply and filter its rows all the same
        for alias, table in ([("a", "t")] if kind != "right" and rng.random() < 0.3 else pool):
            if rng.random() < 0.8:
                q["select"].append({"e": ["c", alias, {"t": "id", "u": "uid", "x": "xid"}[table]], "as": {"a": "p", "b": "o", "d": "r"}[alias]})
        if kind != "right" and rng.random() < 0.3:
            pool = pool[:1]
        for i in range(rng.choice([1, 2, 3])):
            alias, table = rng.choice(pool)
            e = gen.any_col(rng, alias, table)
            if rng.random() < 0.2:
                e = ["coalesce", gen.num_col(rng, alias, table), ["l", 77]]
            elif rng.random() < 0.2:
                e = ["+", gen.num_col(rng, "a", "t"), gen.num_col(rng, *pool[-1])]
            elif rng.random() < 0.07 and kind != "right":
                e = ["l", 7]
            q["select"].append({"e": e, "as": "c%d" % i})
        if rng.random() < 0.1:
            q["distinct"] = True
        if three and third == "u" and rng.random() < 0.2:
            q["where"] = q["where"] + [rng.choice([["cmp", ">", ["c", "d", "w"], ["l", 2]], ["isnull", ["c", "d", "uid"], rng.random() < 0.5],
                                                   ["cmp", "<", ["c", "d", "uid"], ["c", "b", "uid"]]])]
    if kind == "inner" and not three and not joins[0]["where"] and len(joins[0]["on"]) == 1 and rng.random() < 0.4:
        q["comma_join"] = True
    for j in joins:
        if j["on"] and not j["where"] and rng.random() < 0.4 and all(a[0] == "c" and a[1] == "a" and b[0] == "c" and a[2] == b[2] for a, b in j["on"]):
            j["using"] = True
    gen.dress(rng, q)
    session = harness.pick_session(rng, n, 0.6)
    if rng.random() < 0.7:
        session["join_batch"] = rng.choice([1, 1, 2, 3, 5])
    return {"tables": tables, "query": q, "session": session, "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30)}


def execute(plan):
    w = harness.world(plan)
    e = harness.engine()
    out = {"violations": [], "stats": {}}
    q = plan["query"]
    source = {}
    for t, rows in plan["tables"].items():
        source["s." + t] = source["s2." + t] = [dict(r) for r in rows]
    text = model.sql(q)
    harness.set_session(e, plan["session"])
    try:
        harness.run_sql(w, e, "insert into s.out " + text)
    except Exception as ex:
        out["violations"].append(violation("statement_failed", "session %s: %s\n  raised %s" % (plan["session"], text, harness.err(ex))))
        return out
    got = w.tables.get("out", [])
    harness.saw(w, got)
    mq = copy.deepcopy(q)
    for j in mq["joins"]:
        j["kind"] = j["kind"] or "left"
    bad = model.judge(mq, source, got)
    if bad:
        out["violations"].append(violation("wrong_join", "session %s: %s\n  %s" % (plan["session"], text, bad)))
    if len(got) > len(source["s.t"]) and not q.get("group"):
        w.reach.add("fan_out")
    if plan["session"].get("join_batch", 10000) < len({r["k"] for r in source["s.t"]}):
        w.reach.add("several_lookup_batches")
    if plan["session"].get("batch") and plan["session"]["batch"] < len(source["s.t"]):
        w.reach.add("join_across_pages")
    out["stats"] = {"three_tables" if len(q["joins"]) > 1 else "two_tables": 1, "aggregated" if q.get("group") else "plain": 1,
                    "kind_" + (q["joins"][0]["kind"] or "plain"): 1}
    out["sample"] = {"sql": text, "session": plan["session"]}
    e.close()
    return out
