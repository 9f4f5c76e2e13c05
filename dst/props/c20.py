"""C20: a condition selects exactly the rows for which it is true, wherever it stands and whether or not the storage evaluates it."""
import copy
import datetime
import decimal
import re

from .. import harness
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("random conditions over nullable columns (comparisons with the constant on either side, IN, BETWEEN, LIKE, IS NULL, AND/OR/NOT, arithmetic, IF/CASE/IFNULL/COALESCE, variables) placed in WHERE, HAVING, ON, IF, CASE, "
        "aggregates, PARTITION BY, derived tables, CTEs, UNION parts, IN subqueries and DELETE; the rows selected compared with a three-valued evaluation")
REAL = ["syncanysql parser, compiler, executor, taskers, comparison functions", "syncany core filters, loaders, joins"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["NOT is put in front of single comparisons, not of AND and OR whose NULL syncany gives as 0", "values are compared with values of their own type, never with the literal NULL", "LIKE ignores case as in MySQL's default collation"]

STRINGS = [None, "", "a", "abc", "Abc", "b%c", "a_c", "xyz", "ab", "a.c"]
PATTERNS = ["a%", "%c", "%b%", "a_c", "abc", "%", "_", "a.c", "ab", "__c", "%%", "x%z"]
CMPS = ["=", "!=", "<", "<=", ">", ">=", "<>"]


DAYS = ["2024-02-28", "2024-02-29", "2024-03-01", "2023-12-31"]
TIMES = ["2024-02-29 00:00:00", "2024-02-29 10:30:00", "2024-02-28 23:59:59", "2024-03-01 00:00:00", "2023-12-31 12:00:00"]
TYPED = {"d": datetime.date.fromisoformat, "t": datetime.datetime.fromisoformat, "m": decimal.Decimal}


def time_atom(rng, c, memory):
    """A condition on a date, a time or a decimal column."""
    if c == "m":
        v = lambda: ["num", rng.choice([0.5, 1, 1.25, 2, 2.5, -1])]  # noqa: E731
        e = ["col", "m"] if rng.random() < 0.6 else rng.choice([["op", "*", ["col", "m"], ["num", 0.5]], ["op", "+", ["col", "m"], ["col", "a"]], ["fn", "ifnull", ["col", "m"], ["num", 0.5]]])
    else:
        pool = DAYS if c == "d" and (memory or rng.random() < 0.7) else DAYS + TIMES
        v = lambda: ["time", rng.choice(pool)]  # noqa: E731
        e = ["col", c] if rng.random() < 0.75 else ["if", ["cmp", ">", ["col", "a"], ["int", 1]], ["col", c], ["col", "t" if rng.random() < 0.3 and not memory else c]]
    k = rng.choice(["cmp", "cmp", "cmp", "in", "between", "null", "col"])
    if k == "in" and not (memory and c != "m"):      # the memory driver of the syncany package does not read texts in lists as dates
        return ["in", e, [v() for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.3]
    if k == "between":
        return ["between", e, v(), v(), rng.random() < 0.3]
    if k == "null":
        return ["null", e, rng.random() < 0.5]
    if k == "col" and c != "m":
        return ["cmp", rng.choice(CMPS), ["col", "t"], ["col", "d"]] if rng.random() < 0.6 else ["cmp", rng.choice(["<", ">", ">="]), ["col", c], ["now"]]
    return ["cmp", rng.choice(CMPS), e, v()] if rng.random() < 0.75 else ["cmp", rng.choice(CMPS), v(), e]


def num(rng, depth, cols):
    r = rng.random()
    if depth <= 0 or r < 0.5:
        return ["col", rng.choice(cols)]
    if r < 0.7:
        return ["op", rng.choice(["+", "-", "*"]), num(rng, depth - 1, cols), ["int", rng.randrange(1, 4)]]
    if r < 0.8:
        return ["fn", rng.choice(["ifnull", "coalesce"]), num(rng, depth - 1, cols), ["int", rng.randrange(0, 5)]]
    if r < 0.85:
        return ["fn", "coalesce", ["col", rng.choice(cols)], ["col", rng.choice(cols)], ["int", rng.randrange(0, 5)]]
    if r < 0.92:
        return ["if", atom(rng, 0, cols, []), num(rng, 0, cols), ["int", rng.randrange(0, 5)]]
    if r < 0.97:
        return ["case", [[atom(rng, 0, cols, []), ["int", i]] for i in range(rng.choice([1, 2]))], num(rng, 0, cols)]
    return ["neg", ["col", rng.choice(cols)]]


def const(rng):
    r = rng.random()
    return ["int", rng.choice([-1, 0, 1, 2, 2, 3, 4, 6])] if r < 0.8 else ["var", rng.choice(["p", "q"])] if r < 0.93 else ["op", "+", ["int", rng.randrange(3)], ["int", rng.randrange(3)]]


def atom(rng, depth, cols, strs):
    r = rng.random()
    if strs and r < (0.3 if len(strs) == 1 else 0.6):
        c = ["col", rng.choice(strs)]
        if c[1] in TYPED:
            return time_atom(rng, c[1], "memory" in strs)
        if c[1] == "memory":
            c = ["col", "s"]
        k = rng.choice(["cmp", "cmp", "in", "like", "like", "null"])
        if k == "cmp":
            return ["cmp", rng.choice(CMPS[:2] + CMPS), c, ["str", rng.choice(STRINGS[1:])]] if rng.random() < 0.8 else ["cmp", rng.choice(CMPS), ["str", rng.choice(STRINGS[1:])], c]
        if k == "in":
            return ["in", c, [["str", rng.choice(STRINGS[1:])] for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.3]
        if k == "like":
            return ["like", c, ["str", rng.choice(PATTERNS)], rng.random() < 0.3]
        return ["null", c, rng.random() < 0.5]
    if r < 0.65:
        a, b = num(rng, depth, cols), const(rng) if rng.random() < 0.7 else num(rng, depth, cols)
        if rng.random() < 0.25:
            a, b = b, a
        return ["cmp", rng.choice(CMPS), a, b]
    if r < 0.78:
        return ["in", num(rng, depth, cols), [const(rng) if rng.random() < 0.85 else num(rng, 0, cols) for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.3]
    if r < 0.88:
        return ["between", num(rng, depth, cols), const(rng), const(rng) if rng.random() < 0.8 else num(rng, 0, cols), rng.random() < 0.3]
    return ["null", num(rng, depth, cols), rng.random() < 0.5]


def cond(rng, depth, cols, strs):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        a = atom(rng, 1, cols, strs)
        return ["not", a] if rng.random() < 0.15 else a
    c = [rng.choice(["and", "and", "or"]), cond(rng, depth - 1, cols, strs), cond(rng, depth - 1, cols, strs)]
    return c if rng.random() >= 0.2 else ["not", c] if rng.random() < 0.9 else ["not", ["not", c]]


PLACES = ["where", "where", "where", "order", "group", "derived_in", "derived_out", "cte", "if", "case", "value", "having", "having", "having_plain", "on", "on", "left_on", "join_where", "mixed_where", "mixed_on", "union", "insub",
          "notin_sub", "sum_if", "count_if", "partition", "delete", "into", "exists", "group_by_cond"]


def generate(rng, index, tier):
    n = rng.choice([1, 2, 4, 6, 9, 14])
    dom = [None, None, 0, 1, 2, 3, 4, -1]
    t = [{"id": i + 1, "a": rng.choice(dom), "b": rng.choice(dom), "s": rng.choice(STRINGS)} for i in range(n)]
    u = [{"id": i + 1, "x": rng.choice(dom), "k": rng.randrange(1, n + 3)} for i in range(rng.choice([1, 3, 5, 8]))]
    place = rng.choice(PLACES)
    times = rng.random() < 0.3 and place not in ("value",)
    if times:
        for r in t:
            r.update({"d": rng.choice(DAYS + [None]), "t": rng.choice(TIMES + [None]), "m": rng.choice(["0.5", "1.25", "2", "2.50", "-1", None])})
    cols, strs = ["a", "b", "a", "b", "id"], ["s"]
    if place in ("mixed_where", "mixed_on"):
        cols = ["a", "b", "x"]
    if times:
        strs = ["s", "d", "t", "t", "m"] + (["memory"] if place in ("derived_out", "cte") else [])
    if place == "delete":
        c = pushable(rng)
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = ["and", c, pushable(rng)]
    elif place == "value":
        c = atom(rng, 1, cols, strs)
    else:
        c = cond(rng, rng.choice([0, 1, 1, 2, 2]), cols, strs)
    return {"tables": {"t": t, "u": u}, "place": place, "cond": c, "vars": {"p": rng.choice([0, 1, 2, -1]), "q": rng.choice([1, 2, 3])},
            "session": harness.pick_session(rng, max(len(t), len(u))), "storage": harness.pick_storage(rng)}


def pushable(rng):
    c = ["col", rng.choice(["a", "b", "id"])]
    v = ["int", rng.choice([-1, 0, 1, 2, 3, 5])]
    r = rng.random()
    if r < 0.2:
        return ["in", c, [["int", rng.randrange(5)] for _ in range(rng.choice([1, 2, 3]))], False]
    return ["cmp", rng.choice(CMPS)] + ([c, v] if r < 0.7 else [v, c])


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "<>": "!=", "=": "in"}


def repeats(c):
    """Whether an AND of simple conditions has two with the same column and operator (== and IN counting as one)."""
    if c[0] == "and":
        seen = [x for part in c[1:] for x in repeats_of(part)]
        return len(seen) != len(set(seen))
    return False


def repeats_of(c):
    if c[0] == "and":
        return repeats_of(c[1]) + repeats_of(c[2])
    if c[0] == "in":
        return [(c[1][1], "in")]
    op = c[1] if c[2][0] == "col" else FLIP.get(c[1], c[1])
    col = c[2] if c[2][0] == "col" else c[3]
    return [(col[1], {"<>": "!=", "=": "in"}.get(op, op))]


def text(e, q):
    k = e[0]
    if k == "col":
        return q(e[1])
    if k == "int":
        return str(e[1])
    if k == "var":
        return "@" + e[1]
    if k == "num":
        return repr(e[1])
    if k == "time":
        return "'%s'" % e[1]
    if k == "now":
        return "now()"
    if k == "str":
        return "'%s'" % e[1]
    if k == "op":
        return "(%s %s %s)" % (text(e[2], q), e[1], text(e[3], q))
    if k == "neg":
        return "(0 - %s)" % text(e[1], q)
    if k == "fn":
        return "%s(%s)" % (e[1], ", ".join(text(x, q) for x in e[2:]))
    if k == "if":
        return "if(%s, %s, %s)" % tuple(text(x, q) for x in e[1:])
    if k == "case":
        return "(case %s else %s end)" % (" ".join("when %s then %s" % (text(c, q), text(v, q)) for c, v in e[1]), text(e[2], q))
    if k == "cmp":
        return "%s %s %s" % (text(e[2], q), e[1], text(e[3], q))
    if k == "in":
        return "%s %sin (%s)" % (text(e[1], q), "not " if e[3] else "", ", ".join(text(x, q) for x in e[2]))
    if k == "between":
        return "%s %sbetween %s and %s" % (text(e[1], q), "not " if e[4] else "", text(e[2], q), text(e[3], q))
    if k == "like":
        return "%s %slike %s" % (text(e[1], q), "not " if e[3] else "", text(e[2], q))
    if k == "null":
        return "%s is %snull" % (text(e[1], q), "not " if e[2] else "")
    if k == "not":
        return "not (%s)" % text(e[1], q)
    return "(%s %s %s)" % (text(e[1], q), k, text(e[2], q))


def neg(v):
    return None if v is None else not v


def moment(v):
    if isinstance(v, str):
        return datetime.datetime.fromisoformat(v)
    return v if isinstance(v, datetime.datetime) else datetime.datetime(v.year, v.month, v.day)


def compare(op, a, b):
    if a is None or b is None:
        return None
    if isinstance(a, (datetime.date, str)) and isinstance(b, (datetime.date, str)) and type(a) != type(b):
        a, b = moment(a), moment(b)
    return {"=": a == b, "!=": a != b, "<>": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def both(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def ev(e, row, env):
    k = e[0]
    if k == "col":
        return row[e[1]]
    if k in ("int", "str", "num", "time"):
        return e[1]
    if k == "now":
        return datetime.datetime.now()
    if k == "var":
        return env[e[1]]
    if k == "op":
        a, b = ev(e[2], row, env), ev(e[3], row, env)
        if isinstance(a, decimal.Decimal) and isinstance(b, float):
            a = float(a)
        return None if a is None or b is None else {"+": a + b, "-": a - b, "*": a * b}[e[1]]
    if k == "neg":
        v = ev(e[1], row, env)
        return None if v is None else -v
    if k == "fn":
        return next((v for v in (ev(x, row, env) for x in e[2:]) if v is not None), None)
    if k == "if":
        return ev(e[2] if ev(e[1], row, env) is True else e[3], row, env)
    if k == "case":
        return next((ev(v, row, env) for c, v in e[1] if ev(c, row, env) is True), None) if any(ev(c, row, env) is True for c, _ in e[1]) else ev(e[2], row, env)
    if k == "cmp":
        return compare(e[1], ev(e[2], row, env), ev(e[3], row, env))
    if k == "in":
        v = ev(e[1], row, env)
        hits = [compare("=", v, ev(x, row, env)) for x in e[2]]
        r = True if True in hits else None if None in hits else False
        return neg(r) if e[3] else r
    if k == "between":
        v = ev(e[1], row, env)
        r = both(compare(">=", v, ev(e[2], row, env)), compare("<=", v, ev(e[3], row, env)))
        return neg(r) if e[4] else r
    if k == "like":
        v = ev(e[1], row, env)
        r = None if v is None else re.fullmatch("".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in e[2][1]), v, re.I | re.S) is not None
        return neg(r) if e[3] else r
    if k == "null":
        return (ev(e[1], row, env) is None) != e[2]
    if k == "not":
        return neg(ev(e[1], row, env))
    a, b = ev(e[1], row, env), ev(e[2], row, env)
    if k == "and":
        return both(a, b)
    return True if a is True or b is True else None if a is None or b is None else False


def typed(plan):
    return {name: [{k: TYPED[k](v) if k in TYPED and v is not None else v for k, v in r.items()} for r in rows] for name, rows in plan["tables"].items()}


def more(t, form):
    return "".join(", %s as %s" % (form % k, k) for k in TYPED) if t and "d" in t[0] else ""


def naive(rows):
    return [{k: v.replace(tzinfo=None) if isinstance(v, datetime.datetime) else v for k, v in r.items()} for r in rows]


def statement(plan):
    """(sql, rows it should write)"""
    t, u, c, env, place = typed(plan)["t"], plan["tables"]["u"], plan["cond"], plan["vars"], plan["place"]
    a = lambda name: "a." + name  # noqa: E731
    q = lambda name: "q." + name  # noqa: E731
    true = lambda row: ev(c, row, env) is True  # noqa: E731
    hit = [] if place in ("mixed_where", "mixed_on") else [r["id"] for r in t if true(r)]
    rows = [{"id": i} for i in hit]
    head = "insert into s.out "
    if place == "where":
        return head + "select a.id as id from s.t a where " + text(c, a), rows
    if place == "order":
        return head + "select a.id as id, a.a as v from s.t a where %s order by a.id desc limit 3" % text(c, a), [{"id": r["id"], "v": r["a"]} for r in sorted(t, key=lambda r: -r["id"]) if true(r)][:3]
    if place == "group":
        keys = {r["b"] for r in t if true(r)}
        return head + "select a.b as id, count(*) as n from s.t a where %s group by a.b" % text(c, a), [{"id": k, "n": sum(1 for r in t if true(r) and r["b"] == k)} for k in keys]
    if place == "derived_in":
        return head + "select q.id as id from (select a.id as id, a.a as a from s.t a where %s) q" % text(c, a), rows
    if place == "derived_out":
        return head + "select q.id as id from (select a.id as id, a.a as a, a.b as b, a.s as s%s from s.t a) q where %s" % (more(t, "a.%s"), text(c, q)), rows
    if place == "cte":
        return head + "with w as (select a.id as id, a.a as a, a.b as b, a.s as s%s from s.t a) select q.id as id from w q where %s" % (more(t, "a.%s"), text(c, q)), rows
    if place == "if":
        return head + "select a.id as id, if(%s, 1, 0) as v from s.t a" % text(c, a), [{"id": r["id"], "v": int(true(r))} for r in t]
    if place == "case":
        return head + "select a.id as id, case when %s then 'y' else 'n' end as v from s.t a" % text(c, a), [{"id": r["id"], "v": "y" if true(r) else "n"} for r in t]
    if place == "value":
        return head + "select a.id as id, (%s) as v from s.t a" % text(c, a), [{"id": r["id"], "v": None if ev(c, r, env) is None else int(ev(c, r, env))} for r in t]
    if place == "having":
        return head + "select a.id as id, max(a.a) as a, min(a.b) as b, max(a.s) as s%s from s.t a group by a.id having %s" % (more(t, "max(a.%s)"), text(c, str)), [r for r in t if true(r)]
    if place == "having_plain":
        return head + "select a.id as id, a.a as a, a.b as b, a.s as s%s from s.t a having %s" % (more(t, "a.%s"), text(c, str)), [r for r in t if true(r)]
    if place == "on":
        return head + "select b.id as id, a.id as v from s.u b inner join s.t a on b.k = a.id and %s" % text(c, a), [{"id": r["id"], "v": r["k"]} for r in u if r["k"] in hit]
    if place == "left_on":
        return head + "select b.id as id, a.id as v from s.u b left join s.t a on b.k = a.id and %s" % text(c, a), [{"id": r["id"], "v": r["k"] if r["k"] in hit else None} for r in u]
    if place == "join_where":
        none = {"id": None, "a": None, "b": None, "s": None, "d": None, "t": None, "m": None}
        of = {r["id"]: r for r in t}
        return head + "select b.id as id, a.a as v from s.u b left join s.t a on b.k = a.id where %s" % text(c, a), [{"id": r["id"], "v": of.get(r["k"], none)["a"]} for r in u if true(of.get(r["k"], none))]
    if place in ("mixed_where", "mixed_on"):
        of = {r["id"]: r for r in t}
        m = lambda name: ("b." if name == "x" else "a.") + name  # noqa: E731
        none = {"id": None, "a": None, "b": None, "s": None, "d": None, "t": None, "m": None}
        if place == "mixed_on":
            return (head + "select b.id as id, a.id as v from s.u b inner join s.t a on b.k = a.id and %s" % text(c, m),
                    [{"id": r["id"], "v": r["k"]} for r in u if r["k"] in of and true(dict(of[r["k"]], x=r["x"]))])
        return (head + "select b.id as id, a.id as v from s.u b left join s.t a on b.k = a.id where %s" % text(c, m),
                [{"id": r["id"], "v": of.get(r["k"], none)["id"]} for r in u if true(dict(of.get(r["k"], none), x=r["x"]))])
    if place == "union":
        return head + "select a.id as id from s.t a where %s union all select 0 - a.id as id from s.t a where %s" % (text(c, a), text(c, a)), rows + [{"id": -i} for i in hit]
    if place == "insub":
        return head + "select b.id as id from s.u b where b.k in (select a.id as id from s.t a where %s)" % text(c, a), [{"id": r["id"]} for r in u if r["k"] in hit]
    if place == "notin_sub":
        return head + "select b.id as id from s.u b where b.k not in (select a.id as id from s.t a where %s)" % text(c, a), [{"id": r["id"]} for r in u if r["k"] not in hit]
    if place == "exists":
        return head + "select b.id as id from s.u b where exists (select a.id as id from s.t a where a.id = b.k and %s)" % text(c, a), [{"id": r["id"]} for r in u if r["k"] in hit]
    if place == "sum_if":
        return head + "select 1 as id, sum(if(%s, 1, 0)) as n from s.t a" % text(c, a), [{"id": 1, "n": len(hit)}]
    if place == "count_if":
        return head + "select 1 as id, count(if(%s, a.id, null)) as n from s.t a" % text(c, a), [{"id": 1, "n": len(hit)}]
    if place == "partition":
        seen, want = {}, []
        for r in sorted(t, key=lambda r: r["id"]):
            seen[true(r)] = seen.get(true(r), 0) + 1
            want.append({"id": r["id"], "n": seen[true(r)]})
        return head + "select a.id as id, row_number() over (partition by if(%s, 1, 0) order by a.id) as n from s.t a" % text(c, a), want
    if place == "group_by_cond":
        return head + "select if(%s, 1, 0) as id, count(*) as n from s.t a group by if(%s, 1, 0)" % (text(c, a), text(c, a)), [{"id": k, "n": n} for k, n in ((0, len(t) - len(hit)), (1, len(hit))) if n]
    if place == "into":
        return "select sum(if(%s, a.id, 0)) as n into @n from s.t a; insert into s.out select 1 as id, @n as n" % text(c, a), [{"id": 1, "n": sum(hit)}]
    return "delete from s.t where %s" % text(c, str), [r for r in t if not true(r)]


def execute(plan):
    result = {"violations": [], "stats": {plan["place"]: 1}}
    w = harness.world(plan, typed(plan))
    e = harness.engine()
    harness.set_session(e, plan["session"])
    for name, v in plan["vars"].items():
        e.set_variable(name, v)
    sql, want = statement(plan)
    problem = None
    try:
        harness.run_sql(w, e, sql)
    except Exception as ex:
        problem = "raised " + harness.err(ex)
    got = w.tables.get("t" if plan["place"] == "delete" else "out", [])
    harness.saw(w, got)
    if not problem:
        a, b = sorted(repr(sorted(r.items())) for r in naive(got)), sorted(repr(sorted(r.items())) for r in want)
        if a != b:
            problem = "gave %s\n  should be %s" % ([tuple(r.values()) for r in got][:14], [tuple(r.values()) for r in want][:14])
    if problem and plan["place"] == "delete" and repeats(plan["cond"]) and "unknown where expression" in problem and sorted(map(repr, got)) == sorted(map(repr, typed(plan)["t"])):
        problem = None      # refused, nothing deleted: a storage keeps one condition per column and operator
        result["stats"]["refused_delete"] = 1
    if problem:
        result["violations"].append(violation("wrong_rows", "%s\n  %s\n  session %s variables %s\n  t %s\n  u %s" % (
            problem, sql, plan["session"], plan["vars"], [tuple(r.values()) for r in plan["tables"]["t"]], [tuple(r.values()) for r in plan["tables"]["u"]])))
    e.close()
    result["nontrivial"] = bool(want)
    result["sample"] = {"sql": sql}
    return result


def shrink(plan):
    yield from harness.shrink_lists(plan, [("tables", "t"), ("tables", "u")])
    for c in smaller(plan["cond"]):
        p = copy.deepcopy(plan)
        p["cond"] = c
        yield p
    yield from harness.default_shrink(plan)


def smaller(c):
    if c[0] in ("and", "or"):
        yield c[1]
        yield c[2]
        for i in (1, 2):
            for x in smaller(c[i]):
                yield c[:i] + [x] + c[i + 1:]
    elif c[0] == "not":
        yield c[1]
    elif c[0] == "in" and len(c[2]) > 1:
        for i in range(len(c[2])):
            yield ["in", c[1], c[2][:i] + c[2][i + 1:], c[3]]
