"""C19: a constant keeps its written value wherever it stands, and INSERT puts every value into the column it names."""
import copy

from .. import harness
from ..harness import violation

RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("scripts of INSERT ... VALUES and INSERT ... SELECT with column lists and random constants (numbers, hex, bits, strings with quotes, backslashes, comment marks and semicolons, NULL, booleans, "
        "variables set by API or by an earlier statement, negated ones) in VALUES, select lists, IF, CASE, conditions, IN lists, joins, derived tables, UNIONs and CTEs; every stored value compared with the one written")
REAL = ["syncanysql statement splitter, parser, compiler, executor, taskers", "syncany core, constant loader, memory database"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["a single-quoted string doubles its quotes; strings in double quotes hold no quotes; a backslash is written doubled", "a column list in front of SELECT * is not judged"]

CHARS = ["a", "b", "n", "t", "Z", "0", "1", " ", " ", "'", "\\", "\n", "\t", ";", "-", "--", "#", "/*", "*/", "`", "@", "%", "$", "{", "}", "(", ")", "[", "]", ",", ":", "é", "中", "€", ".", "|", "=", "\\n", "''"]
COLUMNS = ["id", "x", "y", "z"]


def text(rng):
    return "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))


def constant(rng, kinds="nfshbTNpPe"):
    """[kind, sql, value]; a variable's value is ["var", name, sign]"""
    k = rng.choice(kinds)
    if k == "n":
        v = rng.choice([0, 1, 2, 3, 7, -1, -3, 10, 255, 12345678901234567890, -99])
        return [k, str(v), v]
    if k == "f":
        v = rng.choice([0.5, 1.5, -2.25, 0.1, 100.0, 1e20, -0.125])
        return [k, repr(v) if "e" not in repr(v) else "1e20", v]
    if k == "s":
        v = text(rng)
        if "'" not in v and '"' not in v and rng.random() < 0.3:
            return [k, '"%s"' % v.replace("\\", "\\\\"), v]
        q = v.replace("\\", "\\\\").replace("'", "''")
        if rng.random() < 0.4:
            q = q.replace("\n", "\\n").replace("\t", "\\t")
        return [k, "'%s'" % q, v]
    if k == "h":
        v = rng.choice([0, 1, 31, 255, 4096])
        return [k, rng.choice(["0x%X" % v, "x'%X'" % v]), v] if rng.random() < 0.7 else [k, "-0x%X" % v, -v]
    if k == "b":
        v = rng.choice([0, 1, 5, 9])
        return [k, rng.choice(["0b%s" % bin(v)[2:], "b'%s'" % bin(v)[2:]]), v]
    if k == "T":
        v = rng.random() < 0.5
        return [k, "true" if v else "false", v]
    if k == "N":
        return [k, "null", None]
    if k == "p":
        name = rng.choice(["p", "q", "r"])
        return [k, "@" + name, ["var", name, 1]]
    if k == "P":
        name = rng.choice(["i", "j"])
        return [k, "-@" + name, ["var", name, -1]]
    a, b = rng.randrange(9), rng.randrange(9)
    return [k, "%d+%d" % (a, b), a + b]


def names(rng, n):
    out = rng.sample(["x", "y", "z", "w"], n)
    if rng.random() < 0.6:
        out[0] = "id"
    return out


def generate(rng, index, tier):
    statements = []
    n_rows = rng.choice([0, 1, 2, 3, 6])
    pool = [constant(rng, "nfs") for _ in range(4)]
    rows = [{"id": i + 1, "h": copy.deepcopy(rng.choice(pool)[2]), "k": rng.randrange(3)} for i in range(n_rows)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["values", "values", "values", "select", "select", "columns", "columns", "where", "where", "into"])
        s = {"kind": kind}
        if kind == "values":
            width = rng.choice([1, 2, 3])
            s["cols"] = names(rng, width)
            s["rows"] = [[constant(rng, "nfshbTN" if i % 2 else "nfshbTNpPe") for _ in range(width)] for i in range(rng.choice([1, 1, 2, 3, 6]))]
            s["plain"] = rng.random() < 0.6
            if s["plain"]:
                s["rows"] = [[constant(rng, "nfshTNb") for _ in r] for r in s["rows"]]
            s["mode"] = rng.choice(["", "", "", "I", "UI", "DI"])
            if s["mode"] not in ("", "I"):
                s["rows"] = [[["n", str(i + 1), i + 1]] + r[1:] for i, r in enumerate(s["rows"])]
        elif kind == "select":
            s["consts"] = [constant(rng) for _ in range(rng.choice([1, 2, 3]))]
            s["shape"] = rng.choice(["plain", "plain", "nofrom", "join", "derived", "union", "with", "if", "case", "simple_case", "coalesce", "group", "call"])
        elif kind == "columns":
            width = rng.choice([2, 3])
            s["cols"] = names(rng, width)
            s["exprs"] = [rng.choice([["id"], ["h"], ["k"], ["c", constant(rng)], ["+"]]) for _ in range(width)]
            s["exprs"][0] = ["id"]
            s["alias"] = [rng.choice([None, "p", "x", "y", "id"]) for _ in range(width)]
            s["shape"] = rng.choice(["plain", "plain", "order", "group", "union", "derived", "star", "with"])
        elif kind == "where":
            s["consts"] = [copy.deepcopy(rng.choice(pool)) if rng.random() < 0.6 else constant(rng, "nfspP") for _ in range(rng.choice([1, 2, 3]))]
            s["shape"] = rng.choice(["eq", "eq", "ne", "in", "in", "if", "in_calc", "on", "having", "notin", "on_in", "simple_case"])
        else:
            s["var"] = rng.choice(["i", "j"])
            s["agg"] = rng.choice(["max", "min", "count"])
        statements.append(s)
    variables = {v: constant(rng, "nfsTN")[2] for v in ("p", "q", "r")}
    variables.update({v: rng.choice([0, 1, -4, 2.5]) for v in ("i", "j")})
    return {"tables": {"t": rows}, "statements": statements, "variables": variables, "one_script": rng.random() < 0.6, "session": harness.pick_session(rng, n_rows, 0.6), "storage": harness.pick_storage(rng)}


def value(v, env):
    if isinstance(v, list):
        return env[v[1]] if v[2] > 0 else -env[v[1]]
    return v


def expr(e, alias):
    return "%s.%s" % (alias, e[0]) if e[0] in ("id", "h", "k") else "%s.k+%s.id" % (alias, alias) if e[0] == "+" else e[1][1]


def expr_value(e, row, env):
    return row[e[0]] if e[0] in ("id", "h", "k") else row["k"] + row["id"] if e[0] == "+" else value(e[1][2], env)


def key(v):
    return repr(v)


def equal(a, b):
    """The comparison of a storage or an expression; None when types differ (syncany's storages take the type of the row's value)."""
    if a is None or b is None:
        return False
    if type(a) is not type(b):
        return None
    return a == b


def judge_where(s, rows, env):
    """The rows a condition selects, or None when it is not judged."""
    out = []
    vals = [value(c[2], env) for c in s["consts"]]
    for r in rows:
        hits = [equal(r["h"], v) for v in vals]
        if s["shape"] in ("eq", "ne", "if", "on", "having", "simple_case"):
            hits = hits[:1]
        if None in hits or None in vals or any(isinstance(v, bool) for v in vals):
            return None
        hit = any(hits)
        if s["shape"] in ("ne", "notin"):
            hit = not hit
        if hit:
            out.append(r)
    return out


def render(n, s, env, rows):
    """(sql, rows of out<n> as sorted keys, or None when not judged); env is changed by INTO."""
    out = "out%d" % n
    if s["kind"] == "values":
        target = "`s`.`%s<%s>`" % (out, s["mode"]) if s["mode"] else "s." + out
        sql = "insert into %s(%s) values %s" % (target, ", ".join(s["cols"]), ", ".join("(%s)" % ", ".join(c[1] for c in r) for r in s["rows"]))
        return sql, [dict(zip(s["cols"], [value(c[2], env) for c in r])) for r in s["rows"]]
    if s["kind"] == "into":
        if not rows:
            return None, None
        ids = [r["id"] for r in rows]
        env[s["var"]] = {"max": max, "min": min, "count": len}[s["agg"]](ids)
        return "select %s(a.id) as m into @%s from s.t a" % (s["agg"], s["var"]), []
    if s["kind"] == "select":
        cs, vals = s["consts"], [value(c[2], env) for c in s["consts"]]
        item = {"if": "if(a.k >= 0, %s, 0)", "case": "case when a.k < 0 then 0 else %s end", "coalesce": "coalesce(null, %s)", "simple_case": "case a.k when -1 then 0 else %s end",
                "call": "if(1=1, if(a.id>0, %s, 1), 2)"}.get(s["shape"], "%s")
        if s["shape"] == "coalesce" and None in vals:
            item = "%s"
        cols = ", ".join("%s as c%d" % (item.replace("%s", c[1]), i) for i, c in enumerate(cs))
        one = {"c%d" % i: v for i, v in enumerate(vals)}
        each = [dict(one, id=r["id"]) for r in rows]
        head = "insert into s.%s " % out
        if s["shape"] == "nofrom":
            return head + "select 1 as id, %s" % cols, [dict(one, id=1)]
        if s["shape"] == "join":
            return head + "select a.id as id, %s from s.t a inner join s.t b on a.id = b.id" % cols, each
        if s["shape"] == "derived":
            return head + "select q.id as id, %s from (select a.id as id, %s from s.t a) q" % (", ".join("q.c%d as c%d" % (i, i) for i in range(len(cs))), cols), each
        if s["shape"] == "union":
            return head + "select a.id as id, %s from s.t a union all select 0 as id, %s" % (cols, cols), each + [dict(one, id=0)]
        if s["shape"] == "with":
            return head + "with w as (select a.id as id, %s from s.t a) select q.id as id, %s from w q" % (cols, ", ".join("q.c%d as c%d" % (i, i) for i in range(len(cs)))), each
        if s["shape"] == "group":
            return head + "select a.k as id, %s, count(*) as n from s.t a group by a.k" % cols, [dict(one, id=k, n=sum(r["k"] == k for r in rows)) for k in {r["k"] for r in rows}]
        return head + "select a.id as id, %s from s.t a" % cols, each
    if s["kind"] == "columns":
        es, seen = s["exprs"], set()
        cols = []
        for i, e in enumerate(es):
            alias = s["alias"][i] or "m%d" % i
            if alias in seen or s["shape"] in ("star", "with", "derived"):
                alias = "m%d" % i
            seen.add(alias)
            cols.append((expr(e, "a"), alias))
        sel = ", ".join("%s as %s" % c for c in cols)
        each = [dict(zip(s["cols"], [expr_value(e, r, env) for e in es])) for r in rows]
        head = "insert into s.%s(%s) " % (out, ", ".join(s["cols"]))
        if s["shape"] == "order":
            return head + "select %s from s.t a order by a.id desc limit 3" % sel, [e for r, e in sorted(zip(rows, each), key=lambda p: -p[0]["id"])][:3]
        if s["shape"] == "group":
            want = [dict(zip(s["cols"], [k, sum(r["id"] for r in rows if r["k"] == k), len(s["cols"])])) for k in {r["k"] for r in rows}]
            return head + "select a.k as p, sum(a.id) as q%s from s.t a group by a.k" % (", %d as r" % len(s["cols"]) if len(s["cols"]) > 2 else ""), want
        if s["shape"] == "union":
            return head + "select %s from s.t a union all select %s from s.t a" % (sel, ", ".join("%s as u%d" % (expr(e, "a"), i) for i, e in enumerate(es))), each + each
        if s["shape"] in ("derived", "star", "with"):
            inner = "select %s from s.t a" % sel
            outer = "q.*" if s["shape"] == "star" else ", ".join("q.%s as v%d" % (c[1], i) for i, c in enumerate(cols))
            if s["shape"] == "with":
                return head + "with c as (%s) select %s from c q" % (inner, outer), each
            return head + "select %s from (%s) q" % (outer, inner), each
        return head + "select %s from s.t a" % sel, each
    c = [x[1] for x in s["consts"]]
    hit = judge_where(s, rows, env)
    want = None if hit is None else [{"id": r["id"], "h": r["h"]} for r in hit]
    head = "insert into s.%s select a.id as id, a.h as h from s.t a " % out
    many = ", ".join(c)
    if s["shape"] == "eq":
        return head + "where a.h = %s" % c[0], want
    if s["shape"] == "ne":
        return head + "where a.h != %s" % c[0], want
    if s["shape"] == "in":
        return head + "where a.h in (%s)" % many, want
    if s["shape"] == "notin":
        return head + "where a.h not in (%s)" % many, want
    if s["shape"] == "if":
        return head + "where if(a.h = %s, 1, 0) = 1" % c[0], want
    if s["shape"] == "simple_case":
        return head + "where case a.h when %s then 1 else 0 end = 1" % c[0], want
    if s["shape"] == "in_calc":
        return head + "where if(a.k >= 0, a.h, 0) in (%s)" % many, want
    if s["shape"] == "having":
        return "insert into s.%s select a.id as id, max(a.h) as h from s.t a group by a.id having h = %s" % (out, c[0]), want
    if s["shape"] == "on":
        return "insert into s.%s select a.id as id, b.h as h from s.t a inner join s.t b on a.id = b.id and b.h = %s" % (out, c[0]), want
    return "insert into s.%s select a.id as id, b.h as h from s.t a inner join s.t b on a.id = b.id and b.h in (%s)" % (out, many), want


def execute(plan):
    result = {"violations": [], "stats": {"values": 0}}
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    env, texts, wants, problem = dict(plan["variables"]), [], {}, None
    for name, v in plan["variables"].items():
        e.set_variable(name, v)
    rows = plan["tables"]["t"]
    for n, s in enumerate(plan["statements"]):
        sql, want = render(n, s, env, rows)
        if sql:
            texts.append(sql)
            wants[n] = want
    try:
        if plan["one_script"]:
            harness.run_sql(w, e, ";\n".join(texts))
        else:
            for sql in texts:
                harness.run_sql(w, e, sql)
    except Exception as ex:
        problem = "raised " + harness.err(ex)
    for n, want in sorted(wants.items()):
        if problem or want is None or plan["statements"][n]["kind"] == "into":
            continue
        got = w.tables.get("out%d" % n, [])
        result["stats"]["values"] += sum(map(len, got))
        harness.saw(w, got)
        a, b = sorted(key(sorted(r.items())) for r in got), sorted(key(sorted(r.items())) for r in want)
        if a != b:
            problem = "out%d holds %s, should hold %s" % (n, a[:8], b[:8])
    if problem:
        result["violations"].append(violation("wrong_value", "%s\n  session %s, variables %s, rows %s, one script %s\n  %s" % (
            problem, plan["session"], plan["variables"], [tuple(r.values()) for r in rows], plan["one_script"], "\n  ;; ".join(texts))))
    e.close()
    result["nontrivial"] = result["stats"]["values"] > 0
    result["sample"] = {"sql": texts[:3]}
    return result


def shrink(plan):
    yield from harness.shrink_lists(plan, [("statements",)], 1)
    yield from harness.shrink_lists(plan, [("tables", "t")])
    for i, s in enumerate(plan["statements"]):
        yield from harness.shrink_lists(plan, [("statements", i, k) for k in ("consts", "rows") if k in s], 1)
    yield from harness.default_shrink(plan)
