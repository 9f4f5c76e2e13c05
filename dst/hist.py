"""Histories of write statements: a reference state machine over whole tables.

A step is a JSON object; `sql()` renders it, `apply()` gives the state after it
has completed, `partial_problem()` says whether a table may hold some content
after it failed half-way.
"""
import copy
from collections import Counter

from . import gen, model

MODES = ("I", "U", "UI", "UDI", "DI")


def table_sql(db, name, mode=None):
    return "`%s`.`%s<%s>`" % (db, name, mode) if mode else "%s.%s" % (db, name)


def sql(step):
    if step["op"] == "write" and "values" in step:
        cols = step["columns"]
        return "insert into %s %svalues %s" % (table_sql(step["db"], step["target"], step.get("mode")), "(%s) " % ", ".join(cols),
                                               ", ".join("(%s)" % ", ".join(model.lit(r[c]) for c in cols) for r in step["values"]))
    if step["op"] == "write":
        return "insert into %s %s" % (table_sql(step["db"], step["target"], (step.get("mode") or "").lower() if step.get("lower") else step.get("mode")), model.sql(step["query"]))
    if step["op"] == "delete":
        text = "delete from %s" % table_sql(step["db"], step["target"])
        if step.get("where"):
            text += " where " + " and ".join(model.cond_sql(c) for c in step["where"])
        return text
    if step["op"] == "query":
        return "insert into s.%s %s" % (step["target"], model.sql(step["query"]))
    raise ValueError(step["op"])


def source(state):
    out = {}
    for name, rows in state.items():
        if name in ("out", "out2", "log"):
            rows = [dict({"v": None, "h": None}, **r) for r in rows]
        for db in ("s", "s2"):
            out["%s.%s" % (db, name)] = rows
    return out


def new_rows(step, state):
    if "values" in step:
        return [dict(r) for r in step["values"]]
    return [dict(r) for r in model.evaluate(step["query"], model.context(source(state)))]


def in_scope(step, row, state):
    """Rows of the target a UDI/DI statement owns: the ones its WHERE (on the key) selects."""
    if "values" in step or step["query"].get("union"):
        return True
    alias = step["query"]["from"]["alias"]
    ctx = model.context(source(state))
    for c in step["query"].get("where") or ():
        if not model.truth(c, model.Env({alias: row}), ctx):
            return False
    return True


def key_of(step):
    return "id" if "values" in step or step["query"].get("union") else step["query"]["select"][0]["as"]


def apply(step, state):
    """The tables after the step completed."""
    state = dict(state)
    old = state.get(step["target"], [])
    if step["op"] == "delete":
        ctx = model.context(source(state))
        state[step["target"]] = [r for r in old if not all(
            model.truth(c, model.Env({"": dict({"v": None, "h": None}, **r)}), ctx) for c in step.get("where") or ())]
        return state
    new, mode, key = new_rows(step, state), step.get("mode") or "I", key_of(step)
    if mode == "I":
        state[step["target"]] = old + new
        return state
    fresh = {r[key]: r for r in new}
    have = {r[key] for r in old}
    if mode in ("U", "UI", "UDI"):
        out = []
        for r in old:
            if r[key] in fresh and (mode != "UDI" or in_scope(step, r, state)):
                r = dict(r, **fresh[r[key]])
            elif mode == "UDI" and in_scope(step, r, state):
                continue
            out.append(r)
        if mode != "U":
            out += [r for r in new if r[key] not in have]
        state[step["target"]] = out
        return state
    state[step["target"]] = [r for r in old if not in_scope(step, r, state)] + new
    return state


def canon(rows):
    # a column a row never got is NULL
    return Counter(tuple(sorted((k, model.canon(v)) for k, v in r.items() if v is not None)) for r in rows)


def same(got, want):
    g, w = canon(got), canon(want)
    if g == w:
        return None
    return "extra %s missing %s" % (model.short([dict(r) for r in (g - w).elements()]),
                                    model.short([dict(r) for r in (w - g).elements()]))


def partial_problem(step, old, new, got):
    """`got` after the step stopped half-way between the contents `old` and `new`."""
    o, n, g = canon(old), canon(new), canon(got)
    for row, count in g.items():
        if count > max(o.get(row, 0), n.get(row, 0)):
            return "row %s appears %d times; before the statement %d, after it %d" % (
                dict(row), count, o.get(row, 0), n.get(row, 0))
    if step["op"] == "write" and step.get("mode") == "DI":
        return None
    for row, count in o.items():
        keep = min(count, n.get(row, 0))
        if g.get(row, 0) < keep:
            return "row %s, which the statement does not touch, was lost (%d of %d left)" % (dict(row), g.get(row, 0), keep)
    if step["op"] == "write" and (step.get("mode") or "I") in ("U", "UI", "UDI"):
        key = key_of(step)
        gk = Counter(r.get(key) for r in got)
        for k, c in gk.items():
            if c > 1:
                return "key %r appears %d times" % (k, c)
        if step["mode"] in ("U", "UI") and {r[key] for r in old} - set(gk):
            return "rows with keys %s were lost" % sorted({r[key] for r in old} - set(gk))
    return None


def query_problem(step, state, got):
    """Judge the rows a query step produced into its own (initially empty) table."""
    from .props import c05
    return c05.judge(step["query"], source(state), got)


def query_partial_problem(step, state, got):
    """Rows written before the failure must be rows of the result."""
    from .props import c05
    q = step["query"]
    if c05.undefined(q, source(state)):
        return None
    ks = model.kinds(q)
    want = Counter(model.canon_rows(model.full_rows(q, model.context(source(state))), ks))
    extra = Counter(model.canon_rows(got, ks)) - want
    return "rows that are not in the result: %s" % model.short(list(extra.elements())) if extra else None


def check_completed(step, state, tables):
    """(problem, state after) for a step that reported success, `tables` being the stored content."""
    if step["op"] == "query":
        got = tables.get(step["target"], [])
        bad = query_problem(step, state, got)
        if bad:
            return "table %s: %s" % (step["target"], bad), state
        want = dict(state)
        want[step["target"]] = got
    else:
        want = apply(step, state)
    for t in sorted(set(tables) | set(want)):
        bad = same(tables.get(t, []), want.get(t, []))
        if bad:
            return "table %s: %s" % (t, bad), want
    return None, want


def check_stopped(steps, state, tables):
    """A script of `steps` stopped somewhere: everything before one statement is complete, nothing after it
    happened, that statement is half-way.  Returns (problem, index of the interrupted statement)."""
    problems = []
    for j, step in enumerate(steps):
        problem = None
        t = step["target"]
        for other in sorted(set(tables) | set(state)):
            if other == t:
                continue
            bad = same(tables.get(other, []), state.get(other, []))
            if bad:
                problem = "table %s: %s" % (other, bad)
                break
        if not problem:
            if step["op"] == "query":
                problem = query_partial_problem(step, state, tables.get(t, []))
            else:
                problem = partial_problem(step, state.get(t, []), apply(step, state).get(t, []), tables.get(t, []))
                if problem:
                    problem = "table %s: %s" % (t, problem)
        if not problem:
            return None, j
        problems.append("if statement %d was interrupted: %s" % (j + 1, problem))
        if step["op"] == "query":
            # its own result is free within the rules of SQL: take what is stored, when that is a complete result
            if query_problem(step, state, tables.get(t, [])):
                break
            state = dict(state)
            state[t] = tables.get(t, [])
        else:
            state = apply(step, state)
    return "; ".join(problems), None


# ------------------------------------------------------------------ generation
def query_step(rng, target):
    from .props import c05
    roll = rng.random()
    if roll < 0.55:
        q = c05.statement(rng)
    elif roll < 0.8:
        q = gen.aggregate_query(rng)
    else:
        q = gen.plain_query(rng)
        if rng.random() < 0.5:
            q["select"].append({"e": gen.window_expr(rng), "as": "w0"})
        else:
            gen.order_limit(rng, q, "p", ["p"])
    return {"op": "query", "target": target, "query": q}


def any_steps(rng, tables, n, queries=0.5, prefix="q", own=True):
    out = []
    for i in range(n):
        if rng.random() < queries:
            out.append(query_step(rng, "%s%d" % (prefix, i)))
        else:
            out.extend(steps(rng, tables, 1, own=own))
    return out


def out_table(rng, keys, span):
    ids = sorted(rng.sample(range(1, span + 1), min(span, rng.choice([0, 1, 2, 4, 7]))))
    return [{"id": i, "v": rng.choice([0, 1, 5, 9]), "h": rng.choice(["a", "b"]), "note": "n%d" % i} for i in ids]


def write_step(rng, tables, target="out", mode=None, own=True):
    """A write whose rows have unique keys; the columns are id, v, h; own: it may read the table it writes."""
    mode = mode if mode is not None else rng.choice(["I", None, "U", "UI", "UI", "UDI", "DI"])
    if mode in ("I", None):
        target = "log"          # plain inserts may repeat a key, so they have a table of their own
    v = rng.choice([["c", "a", "k"], ["c", "a", "id"], ["+", ["c", "a", "k"], ["l", rng.choice([1, 2, 10])]],
                    ["case", ["cmp", ">", ["c", "a", "k"], ["l", 1]], ["c", "a", "id"], ["l", 0]]])
    q = {"from": {"name": rng.choice(["s", "s2"]) + ".t", "alias": "a"}, "where": [],
         "select": [{"e": ["c", "a", "id"], "as": "id"}, {"e": v, "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]}
    if rng.random() < 0.45:
        q["where"] = [["cmp", rng.choice([">", ">=", "<", "<=", "="]), ["c", "a", "id"], ["l", rng.choice([1, 2, 4, 7])]]]
    elif mode in ("I", None, "U", "UI") and rng.random() < 0.4:
        q["where"] = gen.where(rng, "a", "t", 1)
    if mode in ("I", None, "U", "UI") and rng.random() < 0.2:
        q["order"] = [["id", rng.choice([1, -1])]]
        q["limit"] = rng.choice([1, 2, 4])
    elif rng.random() < 0.15 and mode in ("I", None, "UI", "U"):
        q = {"from": {"name": "s.t", "alias": "a"}, "where": gen.where(rng, "a", "t", 0.4), "group": [["c", "a", "k"]],
             "select": [{"e": ["c", "a", "k"], "as": "id"}, {"e": ["agg", rng.choice(["count*", "sum", "max"])] +
                                                            [["c", "a", "id"]], "as": "v"},
                        {"e": ["agg", "max", ["c", "a", "h"]], "as": "h"}]}
        if q["select"][1]["e"][1] == "count*":
            q["select"][1]["e"] = ["agg", "count*"]
    step = {"op": "write", "db": rng.choice(["s", "s", "s2"]), "target": target, "mode": mode, "query": q, "lower": rng.random() < 0.1}
    if rng.random() < 0.4:
        other_source(rng, step, own)
    elif rng.random() < 0.4 and not q.get("order"):
        gen.dress(rng, q)
    q = step["query"]
    if not q.get("union") and "values" not in step and mode != "DI" and rng.random() < 0.15:
        q["select"].pop(rng.choice([1, 2]))
    return step


def other_source(rng, step, own):
    """Rows that come from somewhere else than one table."""
    q, mode = step["query"], step["mode"] or "I"
    roll = rng.random() * (1 if own else 0.75)
    if roll < 0.15:
        ids = rng.sample(range(1, 13), rng.choice([1, 2, 3, 5]))
        step["columns"] = rng.choice([["id", "v", "h"], ["id", "h", "v"], ["id", "v"]])
        step["values"] = [{c: {"id": i, "v": rng.choice([0, 3, None, 2.5]), "h": rng.choice(gen.WORDS)}[c] for c in step["columns"]} for i in ids]
    elif roll < 0.4 and not q.get("order") and not q.get("group"):
        inner = copy.deepcopy(q)
        cut = rng.choice([[], [["cmp", rng.choice([">", "<", ">="]), ["c", "z", "id"], ["l", rng.choice([2, 4, 8])]]]])
        step["query"] = {"from": {"sub": inner, "alias": "z"}, "where": cut, "select": [{"e": ["c", "z", c], "as": c} for c in ("id", "v", "h")]}
        if rng.random() < 0.5:
            step["query"]["from"] = {"name": "w1", "alias": "z"}
            step["query"]["ctes"] = [{"name": "w1", "query": inner}]
    elif roll < 0.55:
        n = rng.choice([2, 4, 6])
        step["query"] = {"union": [
            {"from": {"name": "s.t", "alias": "a"}, "where": [["cmp", "<", ["c", "a", "id"], ["l", n]]],
             "select": [{"e": ["c", "a", "id"], "as": "id"}, {"e": ["c", "a", "k"], "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]},
            {"from": {"name": "s.u", "alias": "b"}, "where": [["cmp", ">=", ["c", "b", "uid"], ["l", n]]],
             "select": [{"e": ["c", "b", "uid"], "as": "id"}, {"e": ["c", "b", "w"], "as": "v"}, {"e": ["l", "u"], "as": "h"}]}]}
        if rng.random() < 0.3:
            step["query"]["ops"] = [1]
    elif roll < 0.75:
        key = [["cmp", rng.choice([">", "<="]), ["c", "a", "id"], ["l", rng.choice([1, 3, 5])]]] if rng.random() < 0.4 else []
        step["query"] = {"from": {"name": "s.t", "alias": "a"}, "where": key,
                         "joins": [{"kind": rng.choice(["left", "inner"]), "src": {"name": rng.choice(["s", "s2"]) + ".u", "alias": "b", "cols": list(gen.COLS["u"])},
                                    "on": [[["c", "a", "id"], ["c", "b", "uid"]]], "where": []}],
                         "select": [{"e": ["c", "a", "id"], "as": "id"}, {"e": ["c", "b", rng.choice(["w", "k"])], "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]}
    else:
        # the table it writes
        key = ["c", "a", "id"]
        if mode != "UDI" and rng.random() < 0.5:
            key = ["+", key, ["l", rng.choice([1, 2, 100])]]
        step["query"] = {"from": {"name": "%s.%s" % (step["db"], step["target"]), "alias": "a"}, "where": [],
                         "select": [{"e": key, "as": "id"}, {"e": ["+", ["c", "a", "v"], ["l", 1]], "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]}
        if key[0] == "c" and rng.random() < 0.4:
            step["query"]["where"] = [["cmp", rng.choice([">", "<="]), key, ["l", rng.choice([1, 3, 5])]]]


def delete_step(rng, target="out"):
    conds = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        conds.append(rng.choice([
            ["cmp", rng.choice([">", ">=", "<", "<=", "=", "!="]), ["c", "", "id"], ["l", rng.choice([1, 2, 3, 5, 8])]],
            ["cmp", rng.choice([">", "<", "="]), ["c", "", "v"], ["l", rng.choice([0, 1, 5])]],
            ["cmp", rng.choice(["=", "!="]), ["c", "", "h"], ["l", rng.choice(["a", "b"])]],
            ["in", ["c", "", "id"], [1, 3, 5, 7]],
            ["insub", ["c", "", "id"], {"from": {"name": "s.u", "alias": "b"}, "where": gen.where(rng, "b", "u", 0.4),
                                        "select": [{"e": ["c", "b", "k"], "as": "k"}]}]]))
    cols = [c[2][2] if c[0] == "cmp" else c[1][2] for c in conds]
    if len(set(cols)) < len(cols):
        conds = conds[:1]
    return {"op": "delete", "db": rng.choice(["s", "s2"]), "target": target, "where": conds}


def steps(rng, tables, n, deletes=0.25, modes=None, own=True):
    out = []
    for _ in range(n):
        target = rng.choice(["out", "out", "out", "out2"])
        if rng.random() < deletes:
            target = rng.choice(["out", "out", "out2", "log"])
            out.append(delete_step(rng, target))
        else:
            step = write_step(rng, tables, target, rng.choice(modes) if modes else None, own)
            out.append(step)
    return out


def start_tables(rng):
    tables = gen.tables(rng, ("t", "u"))
    tables["t"] = [dict(r, id=i + 1) for i, r in enumerate(tables["t"])] if rng.random() < 0.5 else tables["t"]
    tables["out"] = out_table(rng, None, 12)
    tables["out2"] = out_table(rng, None, 6)
    tables["log"] = out_table(rng, None, 4)
    return tables


def clone(tables):
    return {k: copy.deepcopy(v) for k, v in tables.items()}
