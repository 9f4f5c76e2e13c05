"""C11: expressions that carry state from row to row see every row once, in order."""
import copy

from .. import harness
from ..harness import violation

RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("sessions of statements whose columns number rows, look at the previous row or assign variables (also inside conditions, in derived tables and under aggregates), over storages that page, with an order, "
        "a condition or a limit, interrupted now and then by a storage failure; compared with evaluating the columns row by row")
REAL = ["syncanysql parser, compiler, executor, taskers, row and variable calculaters", "syncany core"]
STUB = ["storage server (simulated driver)", "clock"]
ASSUMPTIONS = ["columns are evaluated from left to right, for the rows that meet the condition, in the order asked of the storage", "the values of variables after a failed statement or one with LIMIT are not judged"]

SAME = {"v": 3, "g": 2, "id": 1}


def pick_expr(rng, depth=0):
    k = rng.choice(["index", "last", "last", "set", "set", "set", "read", "if", "if", "case", "both", "col"] if depth == 0 else ["set", "set", "read", "num", "col"])
    if k == "index":
        return ["index"]
    if k == "last":
        return ["last", rng.choice(["v", "g", "id", "n", "n"])]
    if k == "set":
        return ["set", rng.choice(["@a", "@a", "@b"]), rng.choice([["+", "@a", "v"], ["+", "@a", 1], ["+", "@b", "v"], "v", "id", ["+", "@a", "@b"], ["-", "@a", "g"]])]
    if k == "read":
        return ["read", rng.choice(["@a", "@b"])]
    if k == "num":
        return ["num", rng.randrange(5)]
    if k == "both":
        return [k, [rng.choice(["v", "g", "id"]), rng.choice(["=", "<", ">="]), rng.randrange(5)], rng.choice(["and", "or"]),
                ["set", rng.choice(["@a", "@b"]), rng.choice([["+", "@a", 1], "v"])], rng.randrange(4), pick_expr(rng, 1), pick_expr(rng, 1)]
    if k in ("if", "case"):
        return [k, [rng.choice(["v", "g", "id", "@a"]), rng.choice(["=", "<", ">="]), rng.randrange(5)], pick_expr(rng, 1), pick_expr(rng, 1)]
    return ["col", rng.choice(["v", "g", "n"] if depth == 0 else ["v", "g"])]


def generate(rng, index, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    rows = [{"id": i + 1, "g": rng.randrange(3), "v": rng.randrange(5), "n": rng.choice([None, 0, 1, "", "x"])} for i in range(n)]
    statements = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        shape = rng.choice(["plain", "plain", "plain", "nested", "nested", "agg", "session"])
        s = {"shape": shape, "cols": [pick_expr(rng) for _ in range(rng.choice([1, 2, 3]))], "desc": rng.random() < 0.4,
             "where": rng.choice([None, None, ["a.v", ">=", 1], ["a.v+0", ">", 1], ["a.id", "<", 6]]), "limit": rng.choice([None, None, None, 2, 4]), "in": rng.choice(["engine", "engine", "context"]),
             "init": {"@a": rng.randrange(4), "@b": rng.randrange(3)} if rng.random() < 0.6 else None}
        if shape == "nested":
            s["outer"] = [pick_expr(rng) for _ in range(rng.choice([1, 2]))]
        if shape == "agg":
            s["agg"] = [rng.choice(["sum", "max", "min", "count", "group_array"]), pick_expr(rng, 1)]
        statements.append(s)
    plan = {"tables": {"t": rows}, "statements": statements, "session": harness.pick_session(rng, n, 0.7), "one_script": rng.random() < 0.4, "storage": harness.pick_storage(rng)}
    if rng.random() < 0.25:
        plan["aim"] = [harness.aim(rng, ["error", "interrupt", "lost_ack"], 0.6)]
        plan["one_script"] = False
    elif rng.random() < 0.3:
        plan["aim"] = [harness.aim(rng, ["stall", "clock"], 0.6)]
    return plan


def text(e, alias="a"):
    k = e[0]
    if k == "index":
        return "row_index()"
    if k == "last":
        return "row_last(%s.%s)" % (alias, e[1])
    if k == "set":
        return "%s := %s" % (e[1], operand(e[2], alias))
    if k == "read":
        return e[1]
    if k == "num":
        return str(e[1])
    if k == "col":
        return "%s.%s" % (alias, e[1])
    cond = "%s %s %d" % (operand(e[1][0], alias), e[1][1], e[1][2])
    if k == "both":
        return "if(%s %s (%s) > %d, %s, %s)" % (cond, e[2], text(e[3], alias), e[4], text(e[5], alias), text(e[6], alias))
    if k == "if":
        return "if(%s, %s, %s)" % (cond, text(e[2], alias), text(e[3], alias))
    return "case when %s then %s else %s end" % (cond, text(e[2], alias), text(e[3], alias))


def operand(o, alias):
    if isinstance(o, list):
        return "%s %s %s" % (operand(o[1], alias), o[0], operand(o[2], alias))
    return "%s.%s" % (alias, o) if o in SAME else str(o)


class Eval:
    def __init__(self, env, cols):
        self.env, self.cols, self.n, self.last = env, cols, 0, {}

    def val(self, o, row):
        if isinstance(o, list):
            a, b = self.val(o[1], row), self.val(o[2], row)
            return a + b if o[0] == "+" else a - b
        if o in SAME:
            return row[o]
        return self.env[o] if isinstance(o, str) else o

    def one(self, e, row, at):
        k = e[0]
        if k == "index":
            return self.n
        if k == "last":
            was, self.last[at] = self.last.get(at), row[e[1]]
            return was
        if k == "set":
            self.env[e[1]] = v = self.val(e[2], row)
            return v
        if k == "read":
            return self.env[e[1]]
        if k == "num":
            return e[1]
        if k == "col":
            return row[e[1]]
        a = self.val(e[1][0], row)
        ok = {"=": a == e[1][2], "<": a < e[1][2], ">=": a >= e[1][2]}[e[1][1]]
        if k == "both":                  # the second operand is evaluated only if the first does not decide
            if ok == (e[2] == "and"):
                ok = self.one(e[3], row, at) > e[4]
            return self.one(e[5] if ok else e[6], row, at)
        return self.one(e[2] if ok else e[3], row, at)

    def row(self, row):
        self.n += 1
        return [self.one(e, row, i) for i, e in enumerate(self.cols)]


def source(s, rows):
    rows = sorted(rows, key=lambda r: -r["id"] if s["desc"] else r["id"])
    if s["where"]:
        c, op, n = s["where"]
        c = c[2:].replace("+0", "")
        rows = [r for r in rows if {">=": r[c] >= n, ">": r[c] > n, "<": r[c] < n}[op]]
    return rows


def compile_statement(n, s):
    """(sql, columns of out<n>)"""
    cols = ", ".join("%s as c%d" % (text(e), i) for i, e in enumerate(s["cols"]))
    where = " where %s %s %d" % tuple(s["where"]) if s["where"] else ""
    order = " order by a.id%s" % (" desc" if s["desc"] else "")
    limit = " limit %d" % s["limit"] if s["limit"] else ""
    if s["shape"] == "plain":
        return "insert into s.out%d select a.id as id, %s from s.t a%s%s%s" % (n, cols, where, order, limit)
    if s["shape"] == "nested":
        outer = ", ".join("%s as d%d" % (text(e, "q"), i) for i, e in enumerate(s["outer"]))
        return "insert into s.out%d select q.id as id, %s, %s from (select a.id as id, a.v as v, a.g as g, a.n as n, %s from s.t a%s%s%s) q" % (
            n, ", ".join("q.c%d as c%d" % (i, i) for i in range(len(s["cols"]))), outer, cols, where, order, limit)
    if s["shape"] == "agg":
        return "insert into s.out%d select a.g as id, %s(%s) as c0 from s.t a%s group by a.g%s" % (n, s["agg"][0], text(s["agg"][1]), where, order)
    # the documented way to number runs of equal values
    return ("insert into s.out%d select p.sindex as id, count(*) as c0, min(p.id) as c1, max(p.id) as c2 from (select q.id as id, if(q.g = q.was, @a, @a := @a + 1) as sindex from "
            "(select r.id as id, r.g as g, row_last(r.g) as was from (select a.id as id, a.g as g from s.t a%s%s%s) r) q) p group by p.sindex" % (n, where, order, limit))


def reference(s, rows, env):
    """rows of the result (id, values...) in order; env is changed as the statement does"""
    rows = source(s, rows)
    if s["shape"] == "agg":
        groups, ev = {}, Eval(env, [s["agg"][1]])
        for r in rows:
            groups.setdefault(r["g"], []).append(ev.row(r)[0])
        f = {"sum": sum, "max": max, "min": min, "count": len, "group_array": list}[s["agg"][0]]
        return [[g, f(v)] for g, v in groups.items()]
    if s["limit"]:
        rows = rows[:s["limit"]]
    if s["shape"] == "session":
        was, out = None, {}
        for r in rows:
            if r["g"] != was:
                env["@a"] += 1
            was = r["g"]
            out.setdefault(env["@a"], []).append(r["id"])
        return [[k, len(v), min(v), max(v)] for k, v in out.items()]
    ev = Eval(env, s["cols"])
    out = [[r["id"]] + ev.row(r) for r in rows]
    if s["shape"] == "nested":
        ev = Eval(env, s["outer"])
        out = [o + ev.row(r) for o, r in zip(out, rows)]
    return out


def perform(plan, w, e, stop_on_error, seen=None):
    """Returns the ordinals of statements that failed."""
    failed = []
    ctx = e.context()
    for name, v in (("@a", 1), ("@b", 2)):
        e.set_variable(name, v)
    script = []
    for n, s in enumerate(plan["statements"]):
        where = ctx if s["in"] == "context" and not plan["one_script"] else e
        if s["init"] and not plan["one_script"]:
            for k, v in s["init"].items():
                where.set_variable(k, v)
        sql = compile_statement(n, s)
        if plan["one_script"]:
            script.append(sql)
            continue
        try:
            if where is ctx:
                with ctx:
                    harness.run_sql(w, ctx, sql)
            else:
                harness.run_sql(w, e, sql)
        except BaseException as ex:
            if not isinstance(ex, (harness.StorageError, KeyboardInterrupt)):
                raise
            if stop_on_error:
                raise
            failed.append(n)
        if seen is not None:
            seen.append([e.get_variable("@a"), e.get_variable("@b"), ctx.get_variable("@a"), ctx.get_variable("@b")])
    if script:
        harness.run_sql(w, e, ";\n".join(script))
        if seen is not None:
            seen.append([e.get_variable("@a"), e.get_variable("@b"), ctx.get_variable("@a"), ctx.get_variable("@b")])
    return failed


def execute(plan):
    out = {"violations": [], "stats": {"rows": 0}}
    for n in range(len(plan["statements"])):
        plan["tables"].setdefault("out%d" % n, [])
    if plan.get("aim") and "faults" not in plan:
        harness.place_faults(plan, harness.dry_ops(plan, lambda w, e: perform(plan, w, e, False)))
    w = harness.world(plan)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    problem, failed, seen = None, [], []
    try:
        failed = perform(plan, w, e, False, seen)
    except Exception as ex:
        problem = "failed: " + harness.err(ex)
    e.close()
    scopes = {"engine": {"@a": 1, "@b": 2}, "context": {}}
    unknown = set()                   # variables whose value a failed statement may have changed
    rows = plan["tables"]["t"]
    for n, s in enumerate(plan["statements"]):
        if problem:
            break
        scope = "context" if s["in"] == "context" and not plan["one_script"] else "engine"
        if s["init"] and not plan["one_script"]:
            scopes[scope].update(s["init"])
            unknown -= {(scope, k) for k in s["init"]}
        env = Env(scopes, scope)
        if n in failed:
            names = set()
            reference(dict(s, limit=None), rows, Env(copy.deepcopy(scopes), scope, names))
            unknown |= {(scope, k) for k in names}
            continue
        want = reference(s, rows, env)
        blind = bool(unknown) or (s["limit"] and s["shape"] == "nested")
        if blind:
            w.reach.add("variables_unknown")
            if True:
                want = [[v if keep else None for v, keep in zip(r, known(s, len(r)))] for r in want] if s["shape"] in ("plain", "nested") else None
        if s["limit"] or unknown:        # rows past the limit may have been evaluated too; what was computed from an unknown value is unknown
            names = set()
            reference(dict(s, limit=None), rows, Env(copy.deepcopy(scopes), scope, names))
            unknown |= {(scope, k) for k in names}
        got = [[r["id"]] + [r[k] for k in sorted(r, key=lambda k: (k[0] != "c", k)) if k != "id"] for r in w.tables["out%d" % n]]
        harness.saw(w, got)
        out["stats"]["rows"] += len(got)
        if want is None:
            continue
        if blind and s["shape"] in ("plain", "nested"):
            got = [[v if keep else None for v, keep in zip(r, known(s, len(r)))] for r in got]
        if s["shape"] == "agg":
            got, want = sorted(got), sorted(want)
        if got != want:
            problem = "%s gave %s, should give %s" % (compile_statement(n, s), got[:12], want[:12])
            break
        if not plan["one_script"] and not unknown:
            now = [Env(scopes, "engine")["@a"], Env(scopes, "engine")["@b"], Env(scopes, "context")["@a"], Env(scopes, "context")["@b"]]
            if seen[n] != now:
                problem = "after %s the variables @a, @b of engine and context are %s, should be %s" % (compile_statement(n, s), seen[n], now)
    if problem:
        out["violations"].append(violation("wrong_row_state", "%s\n  session %s, one script: %s\n  %s\n  rows %s\n  faults %s" % (
            problem, plan["session"], plan["one_script"], "\n  ".join("%s in %s, variables set before: %s" % (compile_statement(n, s), s["in"], s["init"]) for n, s in enumerate(plan["statements"])),
            [tuple(r.values()) for r in rows], w.injected)))
    out["nontrivial"] = out["stats"]["rows"] > 1
    out["sample"] = {"sql": [compile_statement(n, s) for n, s in enumerate(plan["statements"])]}
    return out


def known(s, width):
    """Which columns do not depend on variables."""
    def free(e):
        return e[0] in ("index", "last", "col", "num") or (e[0] in ("if", "case") and e[1][0] in SAME and free(e[2]) and free(e[3]))
    return [True] + [free(e) for e in s["cols"] + s.get("outer", [])]


class Env(dict):
    """Variables as a scope sees them: read through to the engine, written into the scope."""

    def __init__(self, scopes, scope, names=None):
        self.scopes, self.scope, self.names = scopes, scope, names

    def __getitem__(self, k):
        return self.scopes[self.scope].get(k, self.scopes["engine"][k])

    def __setitem__(self, k, v):
        self.scopes[self.scope][k] = v
        if self.names is not None:
            self.names.add(k)


def shrink(plan):
    yield from harness.shrink_lists(plan, [("statements",)], 1)
    yield from harness.shrink_lists(plan, [("faults",), ("tables", "t")])
    for i, s in enumerate(plan["statements"]):
        yield from harness.shrink_lists(plan, [("statements", i, "cols"), ("statements", i, "outer")], 1)
        for key, v in (("where", None), ("limit", None), ("desc", False), ("in", "engine"), ("init", None)):
            if s[key] != v:
                p = copy.deepcopy(plan)
                p["statements"][i][key] = v
                yield p
    for key in list(plan["session"]):
        p = copy.deepcopy(plan)
        p["session"].pop(key)
        yield p
    if plan["one_script"]:
        yield dict(copy.deepcopy(plan), one_script=False)
