"""C15: variables hold what was last assigned in their scope, and every statement sees exactly that."""
import datetime
import os
import sys
from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("a history of scripts and API calls in one engine and two contexts of it: SET, SET GLOBAL, SELECT INTO, set_variable, and statements reading variables in "
        "expressions, conditions and by ${} substitution; after every call each variable is compared in each scope with a reference environment")
REAL = ["syncanysql parser, compiler, executor, SET and INTO taskers, contexts, variable API"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["within one script, SET of a literal and ${} substitution take effect when the script is compiled (recorded finding), so no script here assigns a "
               "variable with SET after an earlier statement of the same script read or computed it at run time",
               "SELECT INTO one variable gives a scalar (one row, one column), an object (one row) or a list (several rows, or none)"]

VARS = ["a", "b", "c", "d1", "long_name"]
SCOPES = ["engine", "c1", "c2"]


def literal(rng):
    return rng.choice([0, 1, 2, 3, 7, -2, 1.5, -0.5, "x", "a b", "", "1", "true", "it is", True, False, None])


def cond(rng):
    return rng.choice([[], [["cmp", rng.choice(["<", ">", "<=", ">="]), ["c", "a", "id"], ["l", rng.choice([1, 2, 4, 8])]]],
                       [["cmp", "=", ["c", "a", "id"], ["l", rng.choice([1, 2, 3, 5])]]], [["in", ["c", "a", "k"], [1, 2]]]])


def stmt(rng):
    v = rng.choice(VARS)
    roll = rng.random()
    if roll < 0.2:
        return {"k": "set", "v": v, "x": literal(rng), "q": rng.choice(["'", "'", '"', '"', "'''", "'''\n", "''' "])}
    if roll < 0.27:
        return {"k": "global", "v": v, "x": literal(rng), "q": "'"}
    if roll < 0.33:
        return {"k": "expr", "v": v, "of": rng.choice(VARS), "op": rng.choice("+*"), "n": rng.choice([1, 2, 3])}
    if roll < 0.4:
        return {"k": "sub", "v": v, "agg": rng.choice(["max", "min", "count*", "sum"]), "where": cond(rng)}
    if roll < 0.5:
        return {"k": "agg", "v": v, "agg": rng.choice(["max", "min", "count*", "sum"]), "where": cond(rng)}
    if roll < 0.6:
        return {"k": "rows", "v": v, "cols": rng.choice([["id"], ["id"], ["k"], ["v"], ["v"], ["h"], ["g"], ["id", "k"], ["id", "v"], ["g", "h"]]), "where": cond(rng)}
    if roll < 0.63:
        return {"k": "star", "v": v, "where": cond(rng)}
    if roll < 0.66:
        return {"k": "const", "v": v, "x": rng.choice([[5], [7, 8]])}
    if roll < 0.69:
        return {"k": "call", "v": v, "f": rng.choice(["add", "lower", "sub"]), "x": rng.choice([1, 20, -3]), "y": rng.choice([2, 7])}
    if roll < 0.71:
        return {"k": "named", "v": rng.choice(["platform", "home", "cwd"]), "how": rng.choice(["${%s}", "${@%s}", "${@%s:none}"])}
    if roll < 0.82:
        return {"k": "read", "v": v, "v2": rng.choice(VARS), "how": rng.choice(["select", "select", "where", "in", "plus"])}
    return {"k": "subst", "v": v, "how": rng.choice(["number", "text", "in", "default", "where"]), "n": rng.choice([4, 9])}


def generate(rng, index, tier):
    tables = {"t": gen.table_t(rng, rng.choice([0, 1, 2, 3, 5, 8]), gaps=False)}
    calls = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        scope = rng.choice(["engine", "engine", "c1", "c2"])
        if rng.random() < 0.15:
            x = rng.choice([literal(rng), literal(rng), [1, 2], {"p": 1}, {"@date": "2024-02-29"}, {"@time": "04:05:06"}, {"@datetime": "2023-12-31 23:59:58"}, {"@dates": ["2024-02-29", "2023-01-02"]}] + [{"@time": "14:05:06"}, {"@date": "2024-12-31"}])
            calls.append({"scope": scope, "api": rng.choice(VARS), "x": x, "at": rng.random() < 0.5})
        else:
            calls.append({"scope": scope, "stmts": [stmt(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
    session = harness.pick_session(rng, len(tables["t"]), 0.4)
    storage = harness.pick_storage(rng)
    formats = {"date": rng.choice([None, "%d.%m.%Y", "%Y%m%d"]), "time": rng.choice([None, "%H-%M-%S"]), "datetime": rng.choice([None, "%Y%m%d %H%M"])} if rng.random() < 0.4 else {}
    return {"formats": formats, "tables": tables, "calls": calls, "session": session, "storage": storage, "scan_seed": rng.randrange(1 << 30)}


class Env(object):
    def __init__(self):
        self.scopes = {"global": {}, "engine": {}, "c1": {}, "c2": {}}

    def chain(self, scope):
        return [scope] + (["engine"] if scope in ("c1", "c2") else []) + ["global"]

    def has(self, scope, v):
        return any(v in self.scopes[s] for s in self.chain(scope))

    def get(self, scope, v):
        for s in self.chain(scope):
            if v in self.scopes[s]:
                return self.scopes[s][v]
        return None


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def lit(x, q):
    if x is None:
        return "null"
    if x is True or x is False:
        return str(x).lower()
    return "%s%s%s" % (q, x, q[::-1]) if isinstance(x, str) else str(x)


def render(s, env, scope, tables, busy, out):
    """(text, effect) of one statement, or None when it makes no sense in this environment.
    busy: variables read or computed at run time earlier in the same script."""
    v = s["v"]
    ctx = model.context({"s.t": tables["t"]})

    def rows(q):
        return [dict(r) for r in model.evaluate(q, ctx)]

    def into(value):
        env.scopes[scope][v] = value
        busy.setdefault(v, set()).add("into")

    def src(select, where):
        return {"from": {"name": "s.t", "alias": "a"}, "where": where, "select": select}
    k = s["k"]
    if k in ("set", "global"):
        if v in busy:
            return None
        env.scopes[scope if k == "set" else "global"][v] = s["x"]
        return "set %s@%s=%s" % ("" if k == "set" else "global ", v, lit(s["x"], s["q"]))
    if k == "expr":
        x = env.get(scope, s["of"])
        if not number(x):
            return None
        busy.setdefault(s["of"], set()).add("read")
        into(x + s["n"] if s["op"] == "+" else x * s["n"])
        return "set @%s=@%s%s%d" % (v, s["of"], s["op"], s["n"])
    if k in ("sub", "agg"):
        agg = ["agg", "count*"] if s["agg"] == "count*" else ["agg", s["agg"], ["c", "a", "id"]]
        q = src([{"e": agg, "as": "m"}], s["where"])
        got = rows(q)
        if len(got) != 1 or not any(all(model.truth(c, model.Env({"a": r}), ctx) for c in s["where"]) for r in tables["t"]):
            return None                                 # an aggregate over no row gives no row
        if k == "sub":
            into(got[0]["m"])
            return "set @%s=(%s)" % (v, model.sql(q))
        into(got[0]["m"])
        return model.sql(q).replace(" from s.t", " into @%s from s.t" % v)
    if k == "rows":
        q = src([{"e": ["c", "a", c], "as": c} for c in s["cols"]], s["where"])
        got = rows(q)
        if len(s["cols"]) == 1:
            got = [r[s["cols"][0]] for r in got]
        into(got[0] if len(got) == 1 else got)
        return model.sql(q).replace(" from s.t", " into @%s from s.t" % v)
    if k == "star":
        got = rows(src([{"e": ["c", "a", c], "as": c} for c in ("id", "g", "h", "k", "v") if any(c in r for r in tables["t"])], s["where"]))
        got = [{c: r[c] for c in t if c in r} for r in got for t in tables["t"] if t["id"] == r["id"]]
        into(got[0] if len(got) == 1 else got)
        return model.sql(src([{"e": ["c", "a", "id"], "as": "id"}], s["where"])).replace("select a.id as id from s.t", "select * into @%s from s.t" % v)
    if k == "const":
        into(s["x"][0] if len(s["x"]) == 1 else {"m%d" % i: x for i, x in enumerate(s["x"])})
        return "select %s into @%s" % (", ".join("%d as m%d" % (x, i) for i, x in enumerate(s["x"])), v)
    table = "o%d" % len(out)
    if k == "named":
        x = {"platform": sys.platform, "home": os.path.expanduser("~"), "cwd": os.getcwd()}[v]
        out[table] = [{"id": r["id"], "x": x, "y": x} for r in tables["t"]]
        return "insert into s.%s select a.id as id, '%s' as x, @%s as y from s.t a" % (table, s["how"] % v, v)
    if k == "call":
        if env.has(scope, v):
            return None
        x, f = {"add": (s["x"] + s["y"], "add(%d,%d)"), "sub": (s["x"] - s["y"], "sub(%d, %d)"), "lower": ("ab%d%d" % (s["x"], s["y"]), 'mysql__lower("AB%d%d")')}[s["f"]]
        busy.setdefault(v, set())
        out[table] = [{"id": r["id"], "x": x} for r in tables["t"]]
        return "insert into s.%s select a.id as id, %s as x from s.t a" % (table, ("'${@%s:%s}'" if s["f"] == "lower" else "${@%s:%s}") % (v, f % (s["x"], s["y"])))
    x = env.get(scope, v)
    if k == "read":
        busy.setdefault(v, set()).add("read")
        if s["how"] == "select":
            y = env.get(scope, s["v2"])
            busy.setdefault(s["v2"], set()).add("read")
            out[table] = [{"id": r["id"], "x": x, "y": y} for r in tables["t"]]
            return "insert into s.%s select a.id as id, @%s as x, @%s as y from s.t a" % (table, v, s["v2"])
        if s["how"] == "plus" and number(x):
            out[table] = [{"id": r["id"], "x": r["id"] + x} for r in tables["t"]]
            return "insert into s.%s select a.id as id, a.id+@%s as x from s.t a" % (table, v)
        if s["how"] == "where" and number(x):
            out[table] = [{"id": r["id"]} for r in tables["t"] if r["id"] <= x]
            return "insert into s.%s select a.id as id from s.t a where a.id<=@%s" % (table, v)
        if s["how"] == "in" and isinstance(x, list) and all(number(i) for i in x):
            out[table] = [{"id": r["id"]} for r in tables["t"] if r["id"] in x]
            return "insert into s.%s select a.id as id from s.t a where a.id in @%s" % (table, v)
        return None
    if "into" in busy.get(v, ()):
        return None
    busy.setdefault(v, set())
    if s["how"] == "default":
        if env.has(scope, v):
            if not number(x):
                return None
        else:
            x = s["n"]
        out[table] = [{"id": r["id"], "x": x} for r in tables["t"]]
        return "insert into s.%s select a.id as id, ${@%s:%d} as x from s.t a" % (table, v, s["n"])
    if not env.has(scope, v):
        return None
    if s["how"] == "text" and isinstance(x, (datetime.date, datetime.time)):
        f = env.formats.get(type(x).__name__)
        out[table] = [{"id": r["id"], "x": x.strftime(f) if f else str(x)} for r in tables["t"]]
        return "insert into s.%s select a.id as id, '${@%s}' as x from s.t a" % (table, v)
    if s["how"] == "text" and isinstance(x, list) and x and isinstance(x[0], datetime.date):
        out[table] = [{"id": r["id"], "x": "(%s)" % ",".join(i.strftime(env.formats.get("date") or "%Y-%m-%d") for i in x)} for r in tables["t"]]
        return "insert into s.%s select a.id as id, '${@%s}' as x from s.t a" % (table, v)
    if s["how"] == "number" and (number(x) or x is None or isinstance(x, bool)):
        out[table] = [{"id": r["id"], "x": x} for r in tables["t"]]
        return "insert into s.%s select a.id as id, ${@%s} as x from s.t a" % (table, v)
    if s["how"] == "text" and isinstance(x, str) and "'" not in x:
        out[table] = [{"id": r["id"], "x": x} for r in tables["t"]]
        return "insert into s.%s select a.id as id, '${@%s}' as x from s.t a" % (table, v)
    if s["how"] == "where" and number(x):
        out[table] = [{"id": r["id"]} for r in tables["t"] if r["id"] > x]
        return "insert into s.%s select a.id as id from s.t a where a.id>${@%s}" % (table, v)
    if s["how"] == "in" and isinstance(x, list) and x and all(number(i) for i in x):
        out[table] = [{"id": r["id"]} for r in tables["t"] if r["id"] in x]
        return "insert into s.%s select a.id as id from s.t a where a.id in ${@%s}" % (table, v)
    return None


def made(x):
    if isinstance(x, dict) and "@date" in x:
        return datetime.date.fromisoformat(x["@date"])
    if isinstance(x, dict) and "@dates" in x:
        return [datetime.date.fromisoformat(i) for i in x["@dates"]]
    if isinstance(x, dict) and "@time" in x:
        return datetime.time.fromisoformat(x["@time"])
    if isinstance(x, dict) and "@datetime" in x:
        return datetime.datetime.fromisoformat(x["@datetime"])
    return x


def canon(x):
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(sorted(canon(i) for i in x))
    if isinstance(x, dict):
        return "{%s}" % ",".join("%s:%s" % (k, canon(i)) for k, i in sorted(x.items()))
    return repr(x)


def execute(plan):
    result = {"violations": [], "stats": {}}
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    env, out, log = Env(), {}, []
    env.formats = plan.get("formats", {})
    for k, f in sorted(env.formats.items()):
        if f:
            e.execute("set @config.%s_format='%s'" % (k, f))
    scopes = {"engine": e, "c1": e.context(), "c2": e.context()}
    tables = {"t": plan["tables"]["t"]}
    for call in plan["calls"]:
        target, problem = scopes[call["scope"]], None
        if "api" in call:
            log.append("%s.set_variable(%r, %r)" % (call["scope"], call["api"], call["x"]))
            env.scopes[call["scope"]][call["api"]] = made(call["x"])
            target.set_variable(("@" if call["at"] else "") + call["api"], made(call["x"]))
        else:
            busy, texts = {}, []
            for s in call["stmts"]:
                t = render(s, env, call["scope"], tables, busy, out)
                if t:
                    texts.append(t)
                    result["stats"][s["k"]] = result["stats"].get(s["k"], 0) + 1
            if not texts:
                continue
            log.append("%s: %s" % (call["scope"], "; ".join(texts)))
            try:
                harness.run_sql(w, target, "; ".join(texts))
            except Exception as ex:
                problem = "raised " + harness.err(ex)
        for scope in SCOPES:
            for v in VARS:
                want, got = env.get(scope, v), scopes[scope].get_variable(v)
                w.note("var", v=canon(got))
                if not problem and canon(got) != canon(want):
                    problem = "@%s is %r in %s, should be %r" % (v, got, scope, want)
                default = scopes[scope].get_variable("@" + v, "none such")
                if not problem and not env.has(scope, v) and default != "none such":
                    problem = "@%s is not set in %s but get_variable gives %r" % (v, scope, default)
        for t in sorted(out):
            got = w.tables.get(t, [])
            if not problem and sorted(map(canon, got)) != sorted(map(canon, out[t])):
                problem = "table %s holds %s, should hold %s" % (t, model.short(got), model.short(out[t]))
        if problem:
            result["violations"].append(violation("wrong_variable", "session %s, %d rows in s.t: %s\n  %s" % (
                plan["session"], len(tables["t"]), "\n    ;; ".join(log), problem)))
            break
    if len({c["scope"] for c in plan["calls"]}) > 1:
        w.reach.add("several_scopes")
    result["nontrivial"] = bool(log)
    result["sample"] = {"log": log[-4:]}
    e.close()
    return result


def shrink(plan):
    yield from harness.shrink_lists(plan, [("calls",)], 1)
    for i, c in enumerate(plan["calls"]):
        if "stmts" in c:
            yield from harness.shrink_lists(plan, [("calls", i, "stmts")], 1)
    yield from harness.default_shrink(plan)
