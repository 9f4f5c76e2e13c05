"""C24: a nested column names the same value of a document wherever it stands and whichever storage holds the document."""
import copy
import json
import os

from .. import harness, hist
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("random documents (nested objects, arrays, missing and null parts) in a storage, memory tables, json files, derived tables and CTEs; paths with keys, items and slices of arrays as columns, get_value arguments, "
        "conditions (WHERE, ON, IF, CASE), group, order, join, aggregate, window, IN and correlated subquery operands; results compared with a walk over the document, storage failures injected")
REAL = ["syncanysql parser, compiler, executor, taskers", "syncany core valuers, loaders, joins, memory and json databases"]
STUB = ["storage server (simulated document driver)", "disk (simulated files)", "wall clock", "unique ids"]
ASSUMPTIONS = ["a path has values of one type", "keys of documents hold no dots and no colons"]

INTS = ["o.x", "o.p.w", "l.:0.q", "z.:0", "z.:1", "z.:-1", "l.:1.q", "o.z.:0"]
TEXTS = ["o.p.y", "c.n", "l.:0.t"]
WHOLE = ["o", "o.p", "l", "l.:0", "l.q", "z", "z.:0:2", "z.::2", "z.:-1:-3:-1", "o.nope", "o.p.y.k", "l.:0:2.q", "l.:0:1.t", "z.:1:", "o.x.:0", "l.t", "o.z", "l.:7", "l.:7.q", "z.:5:"]
PLACES = ["select", "select", "whole", "whole", "get_value", "get_value", "where", "where", "where", "and", "or", "in", "like", "null", "if", "case", "calc", "group", "group", "agg", "order", "join_from", "join_from", "join_on", "join_where",
          "left_where", "partition", "insub", "correlated", "distinct", "copy", "into", "having", "derived_path", "union", "yield", "limit", "exists"]
PUSHED = ["o.x", "o.p.w", "o.p.y", "c.n"]


def some(rng, v, missing=0.15, null=0.15):
    r = rng.random()
    return "missing" if r < missing else None if r < missing + null else v()


def obj(**cells):
    return {k: v for k, v in cells.items() if v != "missing"}


def document(rng, i):
    num, txt = (lambda: rng.choice([0, 1, 2, 3, 5])), (lambda: rng.choice(["a", "b", "ab", "", "c d"]))
    item = lambda: obj(q=some(rng, num), t=some(rng, txt))  # noqa: E731
    p = some(rng, lambda: obj(y=some(rng, txt), w=some(rng, num)))
    o = some(rng, lambda: obj(x=some(rng, num), p=p, z=some(rng, lambda: [num() for _ in range(rng.choice([0, 1, 2]))])), 0, 0.15)
    return {"id": i, "v": rng.choice([0, 1, 2, None]), "o": o, "l": some(rng, lambda: [item() for _ in range(rng.choice([0, 1, 2, 3]))], 0),
            "z": some(rng, lambda: [num() for _ in range(rng.choice([0, 1, 2, 3, 4]))], 0), "c": some(rng, lambda: obj(n=some(rng, txt)), 0)}


def atom(rng, pushed=False):
    path = rng.choice(PUSHED if pushed else INTS + TEXTS + PUSHED)
    return [path, rng.choice(["=", "!=", "<", "<=", ">", ">="]), rng.choice(["a", "b", "ab", "x"]) if path in TEXTS else rng.choice([0, 1, 2, 3]), rng.random() < 0.2]


def generate(rng, index, tier):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    d = [document(rng, i + 1) for i in range(n)]
    u = [{"id": i, "k": rng.randrange(1, n + 2)} for i in sorted(rng.sample(range(0, 7), rng.choice([1, 3, 5])))]
    plan = {"tables": {"d": d, "u": u}, "place": rng.choice(PLACES), "source": rng.choice(["storage", "storage", "storage", "memory", "pushed", "json", "derived", "cte"]),
            "paths": [rng.choice(INTS) for _ in range(2)] + [rng.choice(TEXTS) for _ in range(2)] + [rng.choice(INTS + TEXTS + WHOLE) for _ in range(3)],
            "conds": [atom(rng) for _ in range(2)], "qualified": rng.random() < 0.6, "desc": rng.random() < 0.4, "limit": rng.choice([1, 2, 3]), "call": rng.randrange(4),
            "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng)}
    if rng.random() < 0.25:
        plan["aim"] = [harness.aim(rng, ["error", "error", "lost_ack", "interrupt", "stall"], 0.3)]
    return plan


def walk(value, parts):
    if not parts:
        return value
    part, rest = parts[0], parts[1:]
    if part.startswith(":"):
        if isinstance(value, dict):
            value = [value]
        if not isinstance(value, list):
            return None
        spans = part[1:].split(":")
        if len(spans) == 1:
            at = int(spans[0])
            return walk(value[at], rest) if -len(value) <= at < len(value) else None
        return walk(value[slice(*[int(x) if x else None for x in spans])], rest)
    if isinstance(value, dict):
        return walk(value.get(part), rest)
    if isinstance(value, list):
        return [x for x in (walk(item, [part]) for item in value) if x is not None] if not rest else walk(walk(value, [part]), rest)
    return None


def at(row, path):
    return walk(row, path.split("."))


def holds(row, c):
    v, w = at(row, c[0]), c[2]
    return v is not None and {"=": v == w, "!=": v != w, "<": v < w, "<=": v <= w, ">": v > w, ">=": v >= w}[c[1]]


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}


def call(path, how):
    """get_value written in one of its ways."""
    parts = path.split(".")
    if how == 0 or len(parts) == 1:
        return "get_value(%s)" % ", ".join(["`%s`" % parts[0]] + ["'%s'" % ".".join(parts[1:])] * (len(parts) > 1))
    if how == 1:
        return "get_value(`%s`, '%s')" % (".".join(parts[:-1]), parts[-1])
    args = ["`%s`" % parts[0]]
    for p in parts[1:]:
        spans = p[1:].split(":") if p.startswith(":") else []
        if len(spans) == 1:
            args.append(spans[0])
        elif spans and all(spans) and how == 3:
            args.append("(%s)" % ", ".join(spans))
        else:
            args.append("'%s'" % p)
    return "get_value(%s)" % ", ".join(args)


def order_key(v):
    return (0, 0) if v is None else (1, v)


def statement(plan):
    """(statements to run first, statement, rows it gives, whether their order counts)"""
    d, u, place, source = plan["tables"]["d"], plan["tables"]["u"], plan["place"], plan["source"]
    of = {"storage": "s.d", "memory": "docs", "pushed": "docs", "json": "`/simdata/j/d.json`", "derived": "(select * from s.d x)", "cte": "w"}[source]
    if source == "derived":
        of = "(select x.id, x.v, x.o, x.l, x.z, x.c from s.d x)"
    head = "insert into s.out " + ("with w as (select x.id, x.v, x.o, x.l, x.z, x.c from s.d x) " if source == "cte" else "")
    first = ["insert into docs select x.id, x.v, x.o, x.l, x.z, x.c from s.d x"] if source == "memory" else []
    q = (lambda path: "a.`%s`" % path) if plan["qualified"] else (lambda path: "`%s`" % path)
    a = (lambda path: "a.`%s`" % path)
    n1, n2, t1, t2, p1, p2, p3 = plan["paths"]
    lit = lambda v: "'%s'" % v if isinstance(v, str) else str(v)  # noqa: E731

    def cond(c, q):
        return "%s %s %s" % (lit(c[2]), FLIP.get(c[1], c[1]), q(c[0])) if c[3] else "%s %s %s" % (q(c[0]), c[1], lit(c[2]))

    c1, c2 = plan["conds"]
    if place in ("join_on", "join_where", "left_where", "exists"):
        c1 = [PUSHED[len(n1 + t1) % 4] if source == "storage" else c1[0], c1[1], c1[2], c1[3]]
        if (c1[0] in TEXTS) != isinstance(c1[2], str):
            c1[2] = "ab" if c1[0] in TEXTS else 2
    frm = " from %s a" % of
    sel = lambda rows: [{"id": r["id"]} for r in rows]  # noqa: E731
    if place in ("select", "whole", "copy"):
        paths = [n1, t1, p1] if place == "select" else [p1, p2, p3]
        if place == "copy" and source in ("storage", "pushed", "memory", "json"):
            return first, head + "select *" + frm, [dict(r) for r in d], False
        return first, head + "select a.id as id, %s" % ", ".join("%s as c%d" % (q(p), i) for i, p in enumerate(paths)) + frm, [dict({"id": r["id"]}, **{"c%d" % i: at(r, p) for i, p in enumerate(paths)}) for r in d], False
    if place == "get_value":
        paths = [n1, p1, t1]
        return (first, head + "select a.id as id, %s" % ", ".join("%s as c%d" % (call(p, (plan["call"] + i) % 4), i) for i, p in enumerate(paths)) + frm,
                [dict({"id": r["id"]}, **{"c%d" % i: at(r, p) for i, p in enumerate(paths)}) for r in d], False)
    if place == "where":
        return first, head + "select a.id as id" + frm + " where " + cond(c1, q), sel(r for r in d if holds(r, c1)), False
    if place == "and":
        return first, head + "select a.id as id" + frm + " where %s and %s" % (cond(c1, q), cond(c2, q)), sel(r for r in d if holds(r, c1) and holds(r, c2)), False
    if place == "or":
        return first, head + "select a.id as id" + frm + " where %s or %s" % (cond(c1, q), cond(c2, q)), sel(r for r in d if holds(r, c1) or holds(r, c2)), False
    if place == "in":
        return first, head + "select a.id as id" + frm + " where %s in (1, 3, 0)" % q(n1), sel(r for r in d if at(r, n1) in (1, 3, 0)), False
    if place == "like":
        return first, head + "select a.id as id" + frm + " where %s like 'a%%'" % q(t1), sel(r for r in d if (at(r, t1) or "").startswith("a")), False
    if place == "null":
        return first, head + "select a.id as id" + frm + " where %s is %snull" % (q(p1), "not " if plan["desc"] else ""), sel(r for r in d if (at(r, p1) is None) != plan["desc"]), False
    if place == "if":
        return first, head + "select a.id as id, if(%s, 1, 2) as c" % cond(c1, q) + frm, [{"id": r["id"], "c": 1 if holds(r, c1) else 2} for r in d], False
    if place == "case":
        return (first, head + "select a.id as id, case when %s then 1 when %s then 2 else 3 end as c" % (cond(c1, q), cond(c2, q)) + frm,
                [{"id": r["id"], "c": 1 if holds(r, c1) else 2 if holds(r, c2) else 3} for r in d], False)
    if place == "calc":
        return (first, head + "select a.id as id, %s + 1 as c, ifnull(%s, 'none') as e, concat(ifnull(%s, ''), '!') as f" % (q(n1), q(t1), q(t2)) + frm,
                [{"id": r["id"], "c": None if at(r, n1) is None else at(r, n1) + 1, "e": "none" if at(r, t1) is None else at(r, t1), "f": (at(r, t2) or "") + "!"} for r in d], False)
    groups = {}
    for r in d:
        groups.setdefault(at(r, t1), []).append(r)
    nums = lambda rows: [at(r, n1) for r in rows if at(r, n1) is not None]  # noqa: E731
    if place == "group":
        return (first, head + "select %s as id, count(*) as n, max(%s) as m, sum(%s) as s" % (q(t1), q(n1), q(n1)) + frm + " group by %s" % q(t1),
                [{"id": k, "n": len(g), "m": max(nums(g), default=None), "s": sum(nums(g))} for k, g in groups.items()], False)
    if place == "having":
        return (first, head + "select %s as y, count(*) as n" % q(t1) + frm + " group by %s having n > 1" % q(t1), [{"y": k, "n": len(g)} for k, g in groups.items() if len(g) > 1], False)
    if place == "agg":
        return (first, head + "select 1 as id, count(%s) as n, count(distinct %s) as e, min(%s) as m" % (q(n1), q(t1), q(n1)) + frm,
                [{"id": 1, "n": len(nums(d)), "e": len(set(groups) - {None}), "m": min(nums(d), default=None)}], False)
    if place in ("order", "limit"):
        rows = sorted(d, key=lambda r: (order_key(at(r, n1)), 0), reverse=plan["desc"])
        rows = sorted(sorted(d, key=lambda r: r["id"]), key=lambda r: order_key(at(r, n1)), reverse=plan["desc"])
        rows = [{"k": at(r, n1)} for r in rows]
        return first, head + "select %s as k" % q(n1) + frm + " order by k%s" % (" desc" if plan["desc"] else "") + (" limit %d" % plan["limit"] if place == "limit" else ""), rows[:plan["limit"]] if place == "limit" else rows, True
    if place == "distinct":
        return first, head + "select distinct %s as y" % q(t1) + frm, [{"y": k} for k in groups], False
    ids = {r["id"]: r for r in u}
    if place == "join_from":
        return (first, head + "select a.id as id, %s as x, b.k as k" % a(n1) + frm + " left join s.u b on %s = b.id" % a(n1),
                [{"id": r["id"], "x": at(r, n1), "k": ids.get(at(r, n1), {"k": None})["k"]} for r in d], False)
    doc = {r["id"]: r for r in d}
    if place == "join_on":
        return (first, head + "select b.id as id, %s as x from s.u b left join %s a on b.k = a.id and %s" % (a(t1), of, cond(c1, a)),
                [{"id": r["id"], "x": at(doc[r["k"]], t1) if r["k"] in doc and holds(doc[r["k"]], c1) else None} for r in u], False)
    if place in ("join_where", "left_where"):
        kind = "inner" if place == "join_where" else "left"
        return (first, head + "select b.id as id, a.id as x from s.u b %s join %s a on b.k = a.id where %s" % (kind, of, cond(c1, a)),
                [{"id": r["id"], "x": r["k"]} for r in u if r["k"] in doc and holds(doc[r["k"]], c1)], False)
    if place == "partition":
        return (first, head + "select a.id as id, sum(%s) over (partition by %s) as n" % (q(n1), q(t1)) + frm,
                [{"id": r["id"], "n": sum(nums(groups[at(r, t1)]))} for r in d], False)
    if place == "insub":
        return first, head + "select b.id as id from s.u b where b.id in (select %s as x" % q(n1) + frm + ")", [{"id": r["id"]} for r in u if any(at(x, n1) == r["id"] for x in d)], False
    if place == "correlated":
        return (first, head + "select b.id as id, (select %s as y" % a(t1) + frm + " where a.id = b.k) as y from s.u b",
                [{"id": r["id"], "y": at(doc[r["k"]], t1) if r["k"] in doc else None} for r in u], False)
    if place == "exists":
        return first, head + "select b.id as id from s.u b where exists (select a.id as id" + frm + " where a.id = b.k and %s)" % cond(c1, a), [{"id": r["id"]} for r in u if r["k"] in doc and holds(doc[r["k"]], c1)], False
    if place == "into":
        return (first + ["%sselect max(%s) as m into @m" % (head[len("insert into s.out "):], q(n1)) + frm], "insert into s.out select 1 as id, @m as m", [{"id": 1, "m": max(nums(d), default=None)}], False)
    if place == "derived_path":
        return first, head + "select y.id as id, y.`k.y` as c from (select a.id as id, a.`o.p` as k" + frm + ") y where y.`k.w` >= 1", [{"id": r["id"], "c": at(r, "o.p.y")} for r in d if (at(r, "o.p.w") or 0) >= 1], False
    if place == "union":
        return (first, head + "select a.id as id" + frm + " where %s union all select 0 - a.id as id" % cond(c1, a) + frm + " where %s" % cond(c2, a),
                sel(r for r in d if holds(r, c1)) + [{"id": -r["id"]} for r in d if holds(r, c2)], False)
    rows = []
    for r in d:
        z = at(r, "z")
        rows.extend({"id": r["id"], "c": x} for x in (z if z is not None else [None]))
    return first, head + "select a.id as id, yield_array(%s) as c" % q("z") + frm, rows, False


def script(plan, w, e):
    first, sql, want, ordered = statement(plan)
    if plan["source"] == "pushed":
        e.push_memory_datas("docs", copy.deepcopy(plan["tables"]["d"]))
    for s in first + [sql]:
        harness.run_sql(w, e, s)


def execute(plan):
    result = {"violations": [], "stats": {plan["place"]: 1, "from_" + plan["source"]: 1}}
    harness.preload()
    import syncany.database.json as driver
    from .c21 import Files, Os
    if plan.get("aim") and "faults" not in plan and plan["source"] != "json":
        harness.place_faults(plan, harness.dry_ops(plan, lambda w, e: script(plan, w, e)))
    w = harness.world(plan)
    disk = Files(w, [])
    kept = driver.os
    driver.open, driver.os = disk.open, Os(disk)
    first, sql, want, ordered = statement(plan)
    if plan["source"] == "json":
        disk.text[os.path.normpath("/simdata/j/d.json")] = json.dumps(plan["tables"]["d"])
    problem = None
    e = harness.engine()
    try:
        harness.set_session(e, plan["session"])
        try:
            script(plan, w, e)
        except BaseException as ex:
            problem = None if w.injected else "raised " + harness.err(ex)
            if w.injected:
                result["stats"]["storage_failed"] = 1
                want = None
        else:
            if any(k in ("error_before", "lost_ack", "interrupt") for k, _, _ in w.injected):
                problem = "returned although the storage failed"
        got = w.tables.get("out", [])
        harness.saw(w, got)
        if not problem and want is not None:
            if ordered:
                problem = None if [repr(r) for r in got] == [repr(r) for r in want] else "gave %s\n  should be %s" % (got[:12], want[:12])
            else:
                shown = lambda rows: sorted(json.dumps(r, sort_keys=True, default=repr) for r in rows)  # noqa: E731
                problem = None if shown(got) == shown(want) else "gave %s\n  should be %s" % (got[:12], want[:12])
    finally:
        e.close()
        driver.os = kept
        del driver.open
    if problem:
        result["violations"].append(violation("wrong_value", "%s\n  %s\n  session %s source %s\n  documents %s\n  u %s\n  faults %s" % (
            problem, "; ".join(first + [sql]), plan["session"], plan["source"], plan["tables"]["d"], plan["tables"]["u"], w.injected)))
    result["nontrivial"] = bool(want) and plan["source"] != "json" or bool(disk.opens)
    result["sample"] = {"sql": sql}
    return result


def shrink(plan):
    yield from harness.shrink_lists(plan, [("tables", "d"), ("tables", "u")])
    yield from harness.default_shrink(plan)
