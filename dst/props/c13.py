"""C13: an expression that gives several values gives a row for each; a transform sees the whole relation."""
import copy
import json

from .. import harness
from ..harness import violation

RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("statements that expand rows (YIELD_ARRAY of arrays, tuples, columns and sub-queries, generator functions, several of them, inside conditions) or transform a whole relation, with conditions, HAVING, order, "
        "limit and offset, alone, in UNIONs, derived tables, joins and groups; compared with expanding row by row")
REAL = ["syncanysql parser, compiler, taskers, generator calculaters", "syncany core with its transforms", "memory database"]
STUB = ["storage server (simulated driver)", "clock"]
ASSUMPTIONS = ["several generators of one row advance together, the shorter ones giving NULL", "a transform takes its argument from a derived table", "an expanding column is not aggregated in the same SELECT"]


def pick_gen(rng):
    k = rng.choice(["arr", "arr", "arr", "const", "gen", "gen", "sub", "if", "plain", "tuple2"])
    g = {"k": k}
    if k == "const":
        g["vals"] = [rng.randrange(5) for _ in range(rng.choice([2, 3]))]
    if k == "if":
        g["n"] = rng.randrange(4)
    return g


def pick_select(rng, columns=None):
    gens = [pick_gen(rng) for _ in range(columns or rng.choice([1, 1, 1, 2, 2]))]
    order = rng.choice([None, "id", "id", "-id", "xs", "-xs"])
    return {"gens": gens, "where": rng.choice([None, None, ["a.v", ">=", rng.randrange(4)], ["a.v+0", ">", rng.randrange(4)], ["a.id", "<", rng.randrange(1, 9)]]),
            "having": rng.choice([None, None, None, ["x0", ">=", rng.randrange(4)]]), "order": order,
            "limit": rng.choice([None, 1, 2, 3, 5, 8]) if order else None, "offset": rng.choice([None, None, 1, 3])}


def generate(rng, index, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    rows = [{"id": i + 1, "v": rng.randrange(5), "k": "k%d" % rng.randrange(3), "j": json.dumps([rng.choice([0, 1, 2, 3, 7]) for _ in range(rng.choice([0, 1, 1, 2, 3]))])} for i in range(n)]
    shape = rng.choice(["plain", "plain", "plain", "plain", "union", "filter", "group", "join", "twice", "into", "rows", "rows", "pivot", "unpivot", "pivot2", "memory"])
    plan = {"tables": {"t": rows, "u": [{"id": i, "w": rng.randrange(4)} for i in range(rng.choice([1, 3, 8]))], "out": []}, "shape": shape, "q": pick_select(rng), "session": harness.pick_session(rng, n, 0.75),
            "storage": harness.pick_storage(rng), "outer": {"n": rng.randrange(4), "limit": rng.choice([None, None, 1, 3])}}
    if shape == "union":
        plan["q2"] = pick_select(rng, len(plan["q"]["gens"]))
        plan["q2"].update(order=None, limit=None, offset=None)
        plan["q"].update(order=None, limit=None, offset=None)
    if shape in ("pivot", "unpivot", "pivot2"):
        plan["q"] = {"gens": [], "where": plan["q"]["where"], "having": None, "order": "id", "limit": None, "offset": None}
    if shape in ("rows", "pivot2") and not plan["q"]["order"]:
        plan["q"]["order"] = "id"
    if rng.random() < 0.3:
        plan["aim"] = [harness.aim(rng, ["stall", "clock"], 0.6)]
    return plan


def gen_text(g):
    k = g["k"]
    if k == "arr":
        return "yield_array(json$decode(a.j))"
    if k in ("const", "tuple2"):
        return "yield_array((%s))" % ", ".join(str(v) for v in g.get("vals", [1, 2]))
    if k == "gen":
        return "sim_gen(a.v)"
    if k == "sub":
        return "yield_array((select b.w from s.u b order by b.id))"
    if k == "if":
        return "if(a.v >= %d, sim_gen(a.v), 9)" % g["n"]
    return "a.v"


def gen_values(g, row, u):
    """the list of values, or a single value"""
    k = g["k"]
    if k == "arr":
        return json.loads(row["j"])
    if k in ("const", "tuple2"):
        return list(g.get("vals", [1, 2]))
    if k == "gen":
        return list(range(row["v"]))
    if k == "sub":
        return [r["w"] for r in sorted(u, key=lambda r: r["id"])]
    if k == "if":
        return list(range(row["v"])) if row["v"] >= g["n"] else 9
    return row["v"]


def select_text(q, shift=0, extra=""):
    cols = "".join(", %s as x%d" % (gen_text(g), i) for i, g in enumerate(q["gens"]))
    s = "select a.id%s as id%s%s from s.t a" % ("+%d" % shift if shift else "", cols, extra)
    if q["where"]:
        s += " where %s %s %d" % tuple(q["where"])
    if q["having"] and q["gens"]:
        s += " having %s %s %d" % tuple(q["having"])
    if q["order"]:
        s += " order by " + {"id": "a.id", "-id": "a.id desc"}.get(q["order"]) if "id" in q["order"] else " order by " + ", ".join(
            c + (" desc" if q["order"][0] == "-" else "") for c in ["id"] + ["x%d" % i for i in range(len(q["gens"]))])
    if q["limit"]:
        s += " limit %d" % q["limit"]
        if q["offset"]:
            s += " offset %d" % q["offset"]
    return s


def null_low(v):
    return (0, 0) if v is None else (1, v)


def select_rows(q, tables, shift=0):
    rows = sorted(tables["t"], key=lambda r: r["id"])
    if q["where"]:
        c, op, n = q["where"]
        c = c[2:].replace("+0", "")
        rows = [r for r in rows if {">=": r[c] >= n, ">": r[c] > n, "<": r[c] < n}[op]]
    if q["order"] == "-id":
        rows = rows[::-1]
    out = []
    for r in rows:
        values = [gen_values(g, r, tables["u"]) for g in q["gens"]]
        lists = [v for v in values if isinstance(v, list)]
        for i in range(max(len(v) for v in lists) if lists else 1):
            out.append([r["id"] + shift] + [v if not isinstance(v, list) else v[i] if i < len(v) else None for v in values])
    if q["having"] and q["gens"]:
        out = [r for r in out if r[1] is not None and r[1] >= q["having"][2]]
    if q["order"] in ("xs", "-xs"):
        out.sort(key=lambda r: [null_low(v) for v in r], reverse=q["order"][0] == "-")
    if q["limit"]:
        out = out[q["offset"] or 0:][:q["limit"]]
    return out


def script(plan):
    q, n, shape = plan["q"], plan["outer"]["n"], plan["shape"]
    cols = ["x%d" % i for i in range(len(q["gens"]))]
    inner = select_text(q)
    listed = "q.id as id" + "".join(", q.%s as %s" % (c, c) for c in cols)
    if shape == "plain":
        return "insert into s.out " + inner
    if shape == "memory":
        return "insert into tmp %s; insert into s.out select id, %s from tmp" % (inner, ", ".join(cols))
    if shape == "into":
        return "select %s into @v from s.t a where a.id = %d; insert into s.out select 1 as id, yield_array(@v) as x0" % (gen_text(q["gens"][0]) + " as x0", n + 1)
    if shape == "union":
        return "insert into s.out %s union all %s" % (inner, select_text(plan["q2"], 100))
    if shape == "filter":
        return "insert into s.out select %s from (%s) q where q.x0 >= %d" % (listed, inner, n)
    if shape == "group":
        return "insert into s.out select q.x0 as id, count(*) as c, sum(q.id) as n from (%s) q group by q.x0" % inner
    if shape == "join":
        return "insert into s.out select %s, b.w as w from (%s) q inner join s.u b on q.x0 = b.id" % (listed, inner)
    if shape == "twice":
        return "insert into s.out select q.id as id, q.x0 as x0, yield_array((5, 6)) as y from (%s) q" % inner
    if shape == "rows":
        s = "select sim_rows(%d) from (%s) q" % (n, inner)
        return "insert into s.out " + s if not plan["outer"]["limit"] else "insert into s.out select r.id as id, r.i as i, r.n as n from (%s) r where r.i >= %d" % (s, n)
    base = "select a.id as id, a.k as k, a.v as v from s.t a" + (" where %s %s %d" % tuple(q["where"]) if q["where"] else "") + " order by a.id"
    if shape == "pivot":
        return "insert into s.out select transform$v2h('k', 'id', 'v') from (%s) q" % base
    if shape == "pivot2":
        return "insert into s.out select transform$h2v('k', 'id', 'v') from (select transform$v2h('k', 'id', 'v') from (%s) q) r" % base
    return "insert into s.out select transform$h2v('name', 'id', 'val') from (%s) q" % base.replace("a.k as k, a.v as v", "a.v as v, a.v + 1 as v1")


def reference(plan):
    q, n, shape, tables = plan["q"], plan["outer"]["n"], plan["shape"], plan["tables"]
    cols = ["id"] + ["x%d" % i for i in range(len(q["gens"]))]
    rows = select_rows(q, tables)
    named = [dict(zip(cols, r)) for r in rows]
    if shape in ("plain", "memory"):
        return named
    if shape == "into":
        q = {"gens": q["gens"][:1], "where": ["a.id", ">=", 0], "having": None, "order": None, "limit": None}
        got = [r[1] for r in select_rows(q, {"t": [r for r in tables["t"] if r["id"] == n + 1], "u": tables["u"]})]
        return [{"id": 1, "x0": v} for v in got]
    if shape == "union":
        return named + [dict(zip(cols, r)) for r in select_rows(plan["q2"], tables, 100)]
    if shape == "filter":
        return [r for r in named if r["x0"] is not None and r["x0"] >= n]
    if shape == "group":
        groups = {}
        for r in named:
            groups.setdefault(r["x0"], []).append(r["id"])
        return [{"id": k, "c": len(v), "n": sum(v)} for k, v in groups.items()]
    if shape == "join":
        return [dict(r, w=b["w"]) for r in named for b in tables["u"] if r["x0"] == b["id"]]
    if shape == "twice":
        return [{"id": r["id"], "x0": r["x0"], "y": y} for r in named for y in (5, 6)]
    if shape == "rows":
        got = rows_function(named, n)
        if plan["outer"]["limit"]:
            got = [{"id": r["id"], "i": r["i"], "n": r["n"]} for r in got if r["i"] >= n]
        return got
    base = [{"id": r["id"], "k": r["k"], "v": r["v"]} for r in tables["t"] if r["id"] in {x[0] for x in rows}]
    if shape in ("pivot", "pivot2"):
        names = list(dict.fromkeys(r["k"] for r in base))
        wide = [dict({"id": r["id"]}, **{k: r["v"] if r["k"] == k else 0 for k in names}) for r in base]
        if shape == "pivot":
            return wide
        return [{"k": k, "id": r["id"], "v": r[k]} for r in wide for k in names]
    return [{"name": k, "id": r["id"], "val": v} for r in base for k, v in (("v", r["v"]), ("v1", r["v"] + 1))]


def rows_function(datas, n):
    """What the registered transform does: it can only be right about the number of rows if it sees all of them."""
    if not datas:
        return []
    return [dict(d, n=len(datas), i=i) for i, d in enumerate(datas)] + [dict(datas[-1], id=900 + n, n=len(datas), i=len(datas))]


_registered = []


def preload():
    sql = harness.preload()
    if _registered:
        return
    _registered.append(True)

    class Gen(sql.GenerateCalculater):
        def calculate(self, n):
            for i in range(n):
                yield i

    class Rows(sql.Calculater):
        def calculate(self, datas, n):
            return rows_function(datas, n)
    sql.register_calculater("sim_gen", Gen)
    sql.register_calculater("sim_rows", Rows)


def execute(plan):
    preload()
    out = {"violations": [], "stats": {"rows": 0}}
    sql = script(plan)
    if plan.get("aim") and "faults" not in plan:
        harness.place_faults(plan, harness.dry_ops(plan, lambda w, e: e.execute(sql)))
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    problem = None
    want = reference(plan)
    try:
        for turn in range(2):
            w.tables["out"] = []
            harness.run_sql(w, e, sql if turn == 0 or plan["shape"] != "memory" else sql.split("; ", 1)[0].replace("tmp", "tmp2") + "; " + sql.split("; ", 1)[1].replace("tmp", "tmp2"))
            got = [dict(r) for r in w.tables["out"]]
            harness.saw(w, got)
            out["stats"]["rows"] += len(got)
            ordered = plan["q"]["order"] and plan["shape"] in ("plain", "memory", "rows")
            if not (got == want if ordered else bag(got) == bag(want)):
                problem = "run %d gave %s, should give %s" % (turn + 1, got[:12], want[:12])
                break
    except Exception as ex:
        problem = "failed: " + harness.err(ex)
    e.close()
    if problem:
        out["violations"].append(violation("wrong_expansion", "%s\n  %s\n  session %s\n  t %s\n  u %s\n  faults %s" % (
            problem, sql, plan["session"], [tuple(r.values()) for r in plan["tables"]["t"]], [tuple(r.values()) for r in plan["tables"]["u"]], w.injected)))
    out["nontrivial"] = len(want) > 1
    out["sample"] = {"sql": sql}
    return out


def bag(rows):
    return sorted(json.dumps(r, sort_keys=True) for r in rows)


def shrink(plan):
    yield from harness.shrink_lists(plan, [("tables", "t"), ("tables", "u"), ("faults",)])
    yield from harness.shrink_lists(plan, [("q", "gens")], 1)
    for key, v in (("where", None), ("having", None), ("limit", None), ("offset", None), ("order", None)):
        if plan["q"][key] != v:
            p = copy.deepcopy(plan)
            p["q"][key] = v
            if key == "order":
                p["q"]["limit"] = None
            yield p
    for key in list(plan["session"]):
        p = copy.deepcopy(plan)
        p["session"].pop(key)
        yield p
