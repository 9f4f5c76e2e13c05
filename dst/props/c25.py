"""C25: a typed column or cast gives the converted value wherever it stands."""
import copy
import datetime
import json

from .. import harness
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("random rows of texts, numbers, booleans, dates and nested values in a storage, memory tables, derived tables and CTEs; columns converted by `column[type]`, convert_type(), :: and CAST, alone or one in the other, as columns and "
        "as operands of calculations, IF, CASE, GROUP BY, DISTINCT, ORDER BY, HAVING, aggregates, windows, joins, IN and correlated subqueries, UNION and conditions; compared with the conversion of each row's value, storage failures injected")
REAL = ["syncanysql parser, compiler, executor, taskers", "syncany core valuers, filters, loaders, joins, memory database"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["NULL converts to 0, 0.0, '', false, or stays NULL for dates and times, as syncany's filters do",
               "a condition between a converted column and a constant is judged where the column already has that type: the constant is what is converted for the storage"]

NAMES = {"int": ["int", "bigint", "smallint", "tinyint"], "float": ["float", "double"], "str": ["str", "varchar", "char", "text", "nchar"], "bool": ["bool", "boolean"],
         "decimal": ["decimal"], "date": ["date"], "datetime": ["datetime", "timestamp"], "time": ["time"]}
SQLS = {"int": ["int", "bigint"], "float": ["float", "double"], "str": ["varchar", "char", "text"], "bool": ["boolean"], "decimal": ["decimal"], "date": ["date"], "datetime": ["datetime", "timestamp"], "time": ["time"]}
CALLS = {"int": ["int"], "float": ["float"], "str": ["string", "str"], "bool": ["bool"], "decimal": ["decimal"], "date": ["date"], "datetime": ["datetime"], "time": ["time"]}
KINDS = [("s", "int"), ("s", "float"), ("s", "decimal"), ("n", "str"), ("n", "float"), ("n", "bool"), ("n", "decimal"), ("f", "int"), ("f", "decimal"), ("b", "int"), ("b", "str"), ("dx", "date"), ("dx", "datetime"), ("dt", "date"),
         ("dt", "str"), ("dt", "time"), ("dx", "time"), ("o.s", "int"), ("o.s", "float"), ("o.n", "str"), ("o.n", "bool")]
NUMERIC = [k for k in KINDS if k[1] in ("int", "float")]
PLAIN = [k for k in KINDS if k[1] in ("int", "float", "str", "date")]
PLACES = ["select", "select", "select", "calc", "if", "case", "group", "group", "agg", "distinct", "order", "partition", "derived", "derived", "join_from", "join_from", "join_on", "insub", "correlated", "union", "having", "where_calc", "where_same",
          "where_same", "where_or", "concat", "into", "twice", "left_where", "limit", "memory_after"]


def generate(rng, index, tier):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    some = lambda v, p=0.2: None if rng.random() < p else v  # noqa: E731
    text = lambda: some(rng.choice(["0", "1", "2", "3", "5", "12", "-3", "10"]))  # noqa: E731
    num = lambda: some(rng.choice([0, 1, 2, 3, 5, -7]))  # noqa: E731
    day = lambda: "2024-%02d-%02d" % (rng.choice([1, 2, 12]), rng.choice([1, 28, 29]))  # noqa: E731
    rows = [{"id": i + 1, "s": text(), "n": num(), "f": some(rng.choice([0.5, 2.5, 3.0, -1.25, 0.0])), "b": some(rng.random() < 0.5), "dx": some(day() + rng.choice(["", " 10:20:30", " 00:00:00"])),
             "dt": some({"@dt": day() + rng.choice(["T00:00:00", "T23:59:59", "T10:20:30"])}), "o": some({"s": text(), "n": num()}, 0.1)} for i in range(n)]
    u = [{"id": i, "k": rng.randrange(1, n + 2), "ks": str(rng.choice([0, 1, 2, 3, 5]))} for i in sorted(rng.sample(range(-3, 13), rng.choice([2, 4, 7])))]
    cols = [list(rng.choice(KINDS)) + [rng.randrange(4), rng.randrange(30)] for _ in range(3)]
    nums = [list(rng.choice(NUMERIC)) + [rng.randrange(4), rng.randrange(30)] for _ in range(2)]
    plan = {"rows": rows, "u": u, "cols": cols, "nums": nums, "place": rng.choice(PLACES), "source": rng.choice(["storage", "storage", "memory", "pushed", "derived", "cte"]), "qualified": rng.random() < 0.7,
            "op": rng.choice(["=", "!=", "<", "<=", ">", ">=", "in", "not in", "between"]), "c": rng.choice([0, 1, 2, 3, 5]), "plain": list(rng.choice(PLAIN)) + [rng.randrange(4), rng.randrange(30)],
            "same": list(rng.choice([("n", "int"), ("id", "int"), ("dt", "datetime"), ("s", "str"), ("f", "float")])) + [rng.randrange(4), rng.randrange(30)], "desc": rng.random() < 0.4, "limit": rng.choice([1, 2, 3]),
            "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng)}
    if rng.random() < 0.2:
        plan["aim"] = [harness.aim(rng, ["error", "error", "lost_ack", "interrupt", "stall"], 0.3)]
    return plan


# ------------------------------------------------------------------ the conversion
def walk(row, name):
    for part in name.split("."):
        row = row.get(part) if isinstance(row, dict) else None
    return row


def moment(text):
    return datetime.datetime.fromisoformat(text.replace("T", " "))


def convert(v, t):
    from decimal import Decimal
    if isinstance(v, str) and t in ("date", "datetime", "time"):
        v = moment(v)
    if t == "int":
        return 0 if v is None else int(v)
    if t == "float":
        return 0.0 if v is None else float(v)
    if t == "decimal":
        return Decimal(0) if v is None else Decimal(str(v))
    if t == "bool":
        return bool(v)
    if t == "str":
        if v is None:
            return ""
        if isinstance(v, bool):
            return "true" if v else "false"
        return v.strftime("%Y-%m-%d %H:%M:%S") if isinstance(v, datetime.datetime) else str(v)
    if v is None:
        return None
    return v.date() if t == "date" else v.time() if t == "time" else v


def value(row, col):
    return convert(walk(row, col[0]), col[1])


def column(col, qualified, alias="a", how=None):
    name, t, form, k = col
    form = form if how is None else how
    plain = ("%s." % alias if qualified else "") + "`%s`" % name
    if form == 0:
        names = [n for n in NAMES[t] for n in (n, n, n.upper())]
        return plain[:-1] + "[%s]`" % names[k % len(names)]
    if form == 1:
        return "convert_%s(%s)" % (CALLS[t][k % len(CALLS[t])], plain)
    if form == 2:
        return "%s::%s" % (plain, SQLS[t][k % len(SQLS[t])])
    return "cast(%s as %s)" % (plain, SQLS[t][k % len(SQLS[t])])


def order_key(v):
    return (0, 0) if v is None else (1, v)


def tell(v, op, c):
    if v is None:
        return False
    if op in ("in", "not in"):
        return (v in c) == (op == "in")
    if op == "between":
        return c[0] <= v <= c[1]
    return {"=": v == c, "!=": v != c, "<": v < c, "<=": v <= c, ">": v > c, ">=": v >= c}[op]


def compared(op, c, text):
    """(constant of the model, its text)"""
    if op in ("in", "not in"):
        return [c, c + 1], "(%s, %s)" % (text(c), text(c + 1))
    if op == "between":
        return [c, c + 2], "%s and %s" % (text(c), text(c + 2))
    return c, text(c)


def data(plan):
    return [dict(r, dt=moment(r["dt"]["@dt"]) if r["dt"] else None) for r in plan["rows"]]


def statement(plan):
    """(statements to run first, statement, rows it gives, whether their order counts)"""
    d, u, place, source = data(plan), plan["u"], plan["place"], plan["source"]
    every = "x.id, x.s, x.n, x.f, x.b, x.dx, x.dt, x.o"
    of = {"storage": "s.d", "memory": "docs", "pushed": "docs", "derived": "(select %s from s.d x)" % every, "cte": "w"}[source]
    head = "insert into s.out " + ("with w as (select %s from s.d x) " % every if source == "cte" else "")
    first = ["insert into docs select %s from s.d x" % every] if source == "memory" else []
    frm, q = " from %s a" % of, (lambda col: column(col, plan["qualified"]))
    n1, n2 = plan["nums"]
    p, op = plan["plain"], plan["op"]
    c, ctext = compared(op, plan["c"], str)
    ids = lambda rows: [{"id": r["id"]} for r in rows]  # noqa: E731
    if place in ("select", "memory_after"):
        cols = plan["cols"]
        sql = "select a.id as id, %s" % ", ".join("%s as c%d" % (q(x), i) for i, x in enumerate(cols)) + frm
        want = [dict({"id": r["id"]}, **{"c%d" % i: value(r, x) for i, x in enumerate(cols)}) for r in d]
        if place == "memory_after" and source != "cte":
            return first + ["insert into later " + sql], head + "select * from later y", want, False
        return first, head + sql, want, False
    if place == "calc":
        return (first, head + "select a.id as id, %s + 1 as x, %s * 2 as y, 10 - %s as z" % (q(n1), q(n2), q(n1)) + frm,
                [{"id": r["id"], "x": value(r, n1) + 1, "y": value(r, n2) * 2, "z": 10 - value(r, n1)} for r in d], False)
    if place == "if":
        return first, head + "select a.id as id, if(%s %s %s, 1, 2) as x" % (q(n1), op, ctext) + frm, [{"id": r["id"], "x": 1 if tell(value(r, n1), op, c) else 2} for r in d], False
    if place == "case":
        return (first, head + "select a.id as id, case when %s %s %s then 1 when %s > 0 then 2 else 3 end as x" % (q(n1), op, ctext, q(n2)) + frm,
                [{"id": r["id"], "x": 1 if tell(value(r, n1), op, c) else 2 if value(r, n2) > 0 else 3} for r in d], False)
    groups = {}
    for r in d:
        groups.setdefault(value(r, p), []).append(r)
    if place == "group":
        return (first, head + "select %s as g, count(*) as n, max(%s) as m, sum(%s) as t" % (q(p), q(n1), q(n2)) + frm + " group by %s" % q(p),
                [{"g": k, "n": len(g), "m": max(value(r, n1) for r in g), "t": sum(value(r, n2) for r in g)} for k, g in groups.items()], False)
    if place == "having":
        return (first, head + "select %s as g, count(*) as n" % q(n1) + frm + " group by %s having g %s %s" % (q(n1), op, ctext),
                [{"g": k, "n": sum(value(r, n1) == k for r in d)} for k in {value(r, n1) for r in d} if tell(k, op, c)], False)
    if place == "agg":
        return (first, head + "select 1 as id, sum(%s) as t, count(distinct %s) as n, min(%s) as m" % (q(n1), q(p), q(n2)) + frm,
                [{"id": 1, "t": sum(value(r, n1) for r in d), "n": len(set(groups) - {None}), "m": min(value(r, n2) for r in d)}], False)
    if place == "distinct":
        return first, head + "select distinct %s as g" % q(p) + frm, [{"g": k} for k in groups], False
    if place in ("order", "limit"):
        rows = sorted(({"g": value(r, p)} for r in d), key=lambda r: order_key(r["g"]), reverse=plan["desc"])
        return (first, head + "select %s as g" % q(p) + frm + " order by g%s" % (" desc" if plan["desc"] else "") + (" limit %d" % plan["limit"] if place == "limit" else ""),
                rows[:plan["limit"]] if place == "limit" else rows, True)
    if place == "partition":
        return (first, head + "select a.id as id, sum(%s) over (partition by %s) as t, row_number() over (partition by %s order by a.id) as n" % (q(n1), q(p), q(p)) + frm,
                [{"id": r["id"], "t": sum(value(x, n1) for x in groups[value(r, p)]), "n": sum(x["id"] <= r["id"] for x in groups[value(r, p)])} for r in d], False)
    if place == "derived":
        return (first, head + "select y.id as id, y.g as g from (select a.id as id, %s as g" % q(n1) + frm + ") y where y.g %s %s" % (op, ctext),
                [{"id": r["id"], "g": value(r, n1)} for r in d if tell(value(r, n1), op, c)], False)
    by, key = {r["id"]: r for r in u}, ["s", "int"] + n1[2:] if n1[1] != "int" else n1
    if place == "join_from":
        return (first, head + "select a.id as id, b.k as k" + frm + " left join s.u b on %s = b.id" % column(key, True), [{"id": r["id"], "k": by[value(r, key)]["k"] if value(r, key) in by else None} for r in d], False)
    if place == "left_where":
        return (first, head + "select a.id as id, %s as k" % column(["ks", "int"] + n1[2:], True, "b") + frm + " inner join s.u b on %s = b.id where %s >= %d" % (column(key, True), column(["ks", "int"] + n2[2:], True, "b") + " + 0", plan["c"]),
                [{"id": r["id"], "k": int(by[value(r, key)]["ks"])} for r in d if value(r, key) in by and int(by[value(r, key)]["ks"]) >= plan["c"]], False)
    if place == "join_on":
        # a cast on the side that is looked up: all of it is read and compared
        return (first, head + "select a.id as id, b.id as k" + frm + " left join s.u b on a.n = %s" % column(["ks", "int"] + n1[2:], True, "b", 1 + n1[2] % 3),
                [x for r in d for x in ([{"id": r["id"], "k": y["id"]} for y in u if r["n"] is not None and int(y["ks"]) == r["n"]] or [{"id": r["id"], "k": None}])], False)
    if place == "insub":
        return first, head + "select b.id as id from s.u b where b.id in (select %s as x" % q(key) + frm + ")", ids(r for r in u if any(value(x, key) == r["id"] for x in d)), False
    if place == "correlated":
        at = {r["id"]: r for r in d}
        return (first, head + "select b.id as id, (select %s as x" % column(p, True) + frm + " where a.id = b.k) as x from s.u b", [{"id": r["id"], "x": value(at[r["k"]], p) if r["k"] in at else None} for r in u], False)
    if place == "union":
        return (first, head + "select a.id as id, %s as x" % q(p) + frm + " union all select 0 - a.id as id, %s as x" % q(n1) + frm,
                [{"id": r["id"], "x": value(r, p)} for r in d] + [{"id": -r["id"], "x": value(r, n1)} for r in d], False)
    if place == "where_calc":
        return first, head + "select a.id as id" + frm + " where %s + 0 %s %s" % (q(n1), op, ctext), ids(r for r in d if tell(value(r, n1), op, c)), False
    if place == "where_or":
        return (first, head + "select a.id as id" + frm + " where %s + 0 %s %s or (%s * 2 > 4 and a.id < 5)" % (q(n1), op, ctext, q(n2)),
                ids(r for r in d if tell(value(r, n1), op, c) or value(r, n2) * 2 > 4 and r["id"] < 5), False)
    if place == "where_same":
        s = plan["same"]
        if s[1] == "datetime" and source == "pushed":
            s = ["n", "int"] + s[2:]  # naive values pushed by a program are not compared
        if s[1] == "datetime":
            at = {0: "2024-01-01 00:00:00", 1: "2024-01-29 10:20:30", 2: "2024-02-28 23:59:59", 3: "2024-02-29 00:00:00", 5: "2024-12-01 10:20:30"}
            op = op if op in ("=", "!=", "<", "<=", ">", ">=") else ">="
            c, ctext = moment(at[plan["c"]]), "'%s'" % at[plan["c"]]
        elif s[1] == "str":
            op = op if op in ("=", "!=") else "="
            c, ctext = str(plan["c"]), str(plan["c"])
        else:
            c, ctext = compared(op, plan["c"], str if op in ("in", "not in") else lambda v: "'%d'" % v)
        return first, head + "select a.id as id" + frm + " where %s %s %s" % (q(s), op, ctext), ids(r for r in d if tell(walk(r, s[0]), op, c)), False
    if place == "concat":
        return (first, head + "select a.id as id, concat(%s, '!') as x, ifnull(%s, 9) as y" % (q(["n", "str"] + p[2:]), q(n1)) + frm, [{"id": r["id"], "x": convert(r["n"], "str") + "!", "y": value(r, n1)} for r in d], False)
    if place == "into":
        return (first + [head[len("insert into s.out "):] + "select max(%s) as m into @m" % q(n1) + frm], "insert into s.out select 1 as id, @m as m", [{"id": 1, "m": max(value(r, n1) for r in d)}], False)
    # one conversion in another
    inner = column(n1, plan["qualified"])
    outer = "cast(%s as varchar)" % inner if p[2] % 2 else "convert_string(%s)" % inner
    if n1[1] != "int":
        inner = column(["s", "int"] + n1[2:], plan["qualified"])
        outer = "convert_float(%s)" % inner
        return first, head + "select a.id as id, %s as x" % outer + frm, [{"id": r["id"], "x": float(convert(r["s"], "int"))} for r in d], False
    return first, head + "select a.id as id, %s as x" % outer + frm, [{"id": r["id"], "x": str(value(r, n1))} for r in d], False


def script(plan, w, e):
    first, sql, want, ordered = statement(plan)
    if plan["source"] == "pushed":
        e.push_memory_datas("docs", copy.deepcopy(data(plan)))
    for s in first + [sql]:
        harness.run_sql(w, e, s)


def plain(row):
    return {k: v.replace(tzinfo=None) if isinstance(v, (datetime.datetime, datetime.time)) else v for k, v in row.items()}


def shown(row):
    return json.dumps({k: [type(v).__name__, repr(v)] if type(v).__name__ != "Decimal" else ["Decimal", str(v.normalize() + 0)] for k, v in plain(row).items()}, sort_keys=True)


def execute(plan):
    result = {"violations": [], "stats": {plan["place"]: 1, "from_" + plan["source"]: 1}}
    harness.preload()
    plan = dict(plan, tables={"d": data(plan), "u": plan["u"]})
    if plan.get("aim") and "faults" not in plan:
        harness.place_faults(plan, harness.dry_ops(plan, lambda w, e: script(plan, w, e)))
    w = harness.world(plan)
    first, sql, want, ordered = statement(plan)
    problem = None
    e = harness.engine()
    try:
        harness.set_session(e, plan["session"])
        try:
            script(plan, w, e)
        except BaseException as ex:
            problem = None if w.injected else "raised " + harness.err(ex)
            if w.injected:
                result["stats"]["storage_failed"] = 1
            want = None
        else:
            if any(k in ("error_before", "lost_ack", "interrupt") for k, _, _ in w.injected):
                problem = "returned although the storage failed"
        got = w.tables.get("out", [])
        harness.saw(w, got)
        if not problem and want is not None:
            a, b = [shown(r) for r in got], [shown(r) for r in want]
            if a != b and plan["place"] == "where_same":
                # a NULL is left out by the storage, or compared as what it converts to
                s = plan["same"]
                sure, maybe = {r["id"] for r in want}, {r["id"] for r in data(plan) if walk(r, s[0] if s[1] != "datetime" or plan["source"] != "pushed" else "n") is None}
                ids = [r["id"] for r in got]
                if len(ids) != len(set(ids)) or set(ids) - maybe != sure - maybe:
                    problem = "gave %s\n  should be %s (NULL rows %s may be left out)" % (got[:12], want[:12], sorted(maybe))
            elif a != b and (ordered or sorted(a) != sorted(b)):
                problem = "gave %s\n  should be %s" % ([plain(r) for r in got][:12], want[:12])
    finally:
        e.close()
    if problem:
        result["violations"].append(violation("wrong_value", "%s\n  %s\n  session %s source %s\n  rows %s\n  u %s\n  faults %s" % (
            problem, "; ".join(first + [sql]), plan["session"], plan["source"], plan["rows"], plan["u"], w.injected)))
    result["nontrivial"] = bool(want)
    result["sample"] = {"sql": sql}
    return result


def shrink(plan):
    yield from harness.shrink_lists(plan, [("rows",), ("u",)])
    yield from harness.default_shrink(plan)
