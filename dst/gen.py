"""Random tables and queries.  Everything is drawn from the rng passed in."""
import copy

WORDS = ["a", "b", "c", "ab", "Z", "x-1", "it's", "\u00e9"]


def table_t(rng, n=None, gaps=True):
    """s.t: id unique, g nullable small int, h text, v nullable number, k small int never null."""
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 13, 21]) if n is None else n
    ids = sorted(rng.sample(range(1, 3 * n + 2), n)) if gaps else list(range(1, n + 1))
    gs = rng.choice([[1], [0, 1, 2], [0, 1, 2, None], [1, 2, 3, 4, 5, 6, 7], [None, 1]])
    hs = rng.sample(WORDS, rng.randint(1, 5))
    vs = rng.choice([[1, 2, 3, 4, 5, 6, 7, 9, 0, -3], [None, 1, 2, 5, 8], [0.5, 1.5, 2, None, -2.5], [None], [0, None, 7]])
    return [{"id": i, "g": rng.choice(gs), "h": rng.choice(hs), "v": rng.choice(vs), "k": rng.choice([0, 1, 2, 3, 4])} for i in ids]


def table_u(rng, n=None):
    """s.u: uid unique, k joins t.k, w number, r references x.xid (never null)."""
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
    return [{"uid": i + 1, "k": rng.choice([0, 1, 2, 3, 5, 6]), "w": rng.choice([1, 2, 3, 10, 20, -1]),
             "r": rng.choice([1, 2, 3, 4])} for i in range(n)]


def table_x(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return [{"xid": i + 1, "z": rng.choice(["p", "q", "r", "s"]), "y": rng.choice([5, 6, 7])} for i in range(n)]


COLS = {"t": {"id": "n", "g": "n", "h": "s", "v": "n", "k": "n"}, "u": {"uid": "n", "k": "n", "w": "n", "r": "n"},
        "x": {"xid": "n", "z": "s", "y": "n"}}


def tables(rng, names=("t",), big=False):
    make = {"t": table_t, "u": table_u, "x": table_x}
    return {n: make[n](rng) for n in names}


def num_col(rng, alias, table):
    return ["c", alias, rng.choice([c for c, t in COLS[table].items() if t == "n"])]


def any_col(rng, alias, table):
    return ["c", alias, rng.choice(list(COLS[table]))]


def cond(rng, alias, table, depth=0):
    roll = rng.random()
    if depth < 2 and roll < 0.15:
        return [rng.choice(["or", "or", "and"])] + [cond(rng, alias, table, depth + 1) for _ in range(2)]
    c = any_col(rng, alias, table)
    if COLS[table][c[2]] == "s":
        v = rng.choice(WORDS)
        if rng.random() < 0.3:
            return [rng.choice(["in", "in", "notin"]), c, rng.sample(WORDS, rng.choice([1, 2, 3]))]
        return ["cmp", rng.choice(["=", "!=", "="]) if table == "t" else "=", c, ["l", v]]
    if roll < 0.3:
        return ["in", c, rng.sample(range(0, 8), rng.choice([1, 3, 3]))]
    if roll < 0.34:
        return ["notin", c, rng.sample(range(0, 8), rng.choice([1, 3]))]
    if roll < 0.38:
        lo = rng.choice([0, 1, 2, 3])
        return ["between", c, lo, lo + rng.choice([0, 1, 3, 9])]
    if roll < 0.4 and c[2] in ("g", "v"):
        return ["isnull", c, rng.random() < 0.6]
    if roll < 0.5:
        c = ["+", c, ["l", rng.choice([1, 2])]]
    op = rng.choice(["=", ">", ">=", "<", "<="])
    return ["cmp", op, c, ["l", rng.choice([0, 1, 2, 3, 5, 8])]]


def where(rng, alias, table, p=0.5):
    return [cond(rng, alias, table) for _ in range(rng.choice([1, 1, 2, 2, 3]))] if rng.random() < p else []


def scalar_expr(rng, alias, table):
    roll = rng.random()
    if roll < 0.55:
        return any_col(rng, alias, table)
    if roll < 0.75:
        return [rng.choice(["+", "-", "*"]), num_col(rng, alias, table), ["l", rng.choice([1, 2, 3])]]
    if roll < 0.88:
        return [rng.choice(["if", "case"]), ["cmp", rng.choice([">", "<", "="]), num_col(rng, alias, table), ["l", rng.choice([1, 2, 3])]],
                num_col(rng, alias, table), ["l", 0]]
    return ["coalesce", num_col(rng, alias, table), ["l", 99]]


def agg_expr(rng, alias, table, fns=None):
    fn = rng.choice(fns or ["count*", "count", "countd", "sum", "sum", "min", "max", "avg", "avg", "gconcat", "garray", "guniq",
                            "band", "bor", "bxor", "jarr", "jobj", "user"])
    key = {"t": "id", "u": "uid", "x": "xid"}[table]
    if fn == "count*":
        return ["agg", fn]
    if fn in ("band", "bor", "bxor"):
        return ["agg", fn, ["c", alias, rng.choice({"t": ["id", "k"], "u": ["uid", "r"], "x": ["xid", "y"]}[table])]]
    if fn == "jobj":
        return ["agg", fn, ["c", alias, key], num_col(rng, alias, table)]
    if fn in ("gconcat",):
        return ["agg", fn, ["c", alias, {"t": "h", "u": "uid", "x": "z"}[table]]]
    if fn in ("count", "countd", "min", "max", "garray", "guniq", "jarr"):
        return ["agg", fn, any_col(rng, alias, table)]
    if fn == "user":
        return ["agg", fn, num_col(rng, alias, table)]
    e = num_col(rng, alias, table)
    if rng.random() < 0.3:
        e = rng.choice([["+", e, ["l", 1]], ["case", ["cmp", ">", num_col(rng, alias, table), ["l", 2]], e, ["l", 0]]])
    return ["agg", fn, e]


def fix_distinct(select):
    """COUNT(DISTINCT) next to other aggregates is fine; keep at most two of them."""
    seen = 0
    for s in select:
        if s["e"][0] == "agg" and s["e"][1] == "countd":
            seen += 1
            if seen > 2:
                s["e"] = ["agg", "count*"]
    return select


def aggregate_query(rng, alias="a", table="t", name="s.t", fns=None):
    q = {"from": {"name": name, "alias": alias}, "where": where(rng, alias, table)}
    ngroup = rng.choice([0, 1, 1, 1, 2, 3]) if table == "t" else rng.choice([0, 1])
    cols = rng.sample(list({"t": ["g", "h", "k", "v"], "u": ["k", "r", "w"], "x": ["z", "y"]}[table]), min(ngroup, 2 if table == "x" else 3))
    group = [["c", alias, c] for c in cols]
    if group and rng.random() < 0.2:
        i = rng.randrange(len(group))
        if COLS[table][group[i][2]] == "n":
            group[i] = ["+", group[i], ["l", 1]]
    select = [{"e": copy.deepcopy(g), "as": "g%d" % i} for i, g in enumerate(group)]
    if select and rng.random() < 0.15:
        select.pop(rng.randrange(len(select)))
    if select and rng.random() < 0.25:
        g = rng.choice(group)
        select.append({"e": ["coalesce", copy.deepcopy(g), ["l", "-"]] if g[0] == "c" and COLS[table][g[2]] == "s" else ["+", copy.deepcopy(g), ["l", 3]], "as": "gx"})
    for i in range(0 if select and fns is None and rng.random() < 0.12 else rng.choice([1, 1, 2, 3, 4])):
        e = agg_expr(rng, alias, table, fns)
        numeric = e[1] in ("count*", "count", "sum") or (e[1] in ("min", "max") and COLS[table][e[2][2]] == "n")
        if rng.random() < 0.15 and numeric:
            e = [rng.choice(["+", "*"]), e, rng.choice([["l", 2], ["agg", "count*"]])]
        elif rng.random() < 0.15:
            e = agg_calculate(rng, alias, table, group)
        select.append({"e": e, "as": "c%d" % i})
    q["select"] = fix_distinct(select)
    if group:
        q["group"] = group
    if group and rng.random() < 0.3:
        cands = [s for s in select if s["e"][0] == "agg" and (s["e"][1] in ("count*", "count", "sum") or (
            s["e"][1] in ("max", "min") and COLS[table][s["e"][2][2]] == "n"))]
        keys = [(s["as"], WORDS[:4] if s["e"][0] == "c" and COLS[table][s["e"][2]] == "s" else [1, 2, 3]) for s in select if s["e"][0] != "agg"
                and not has_agg(s["e"])]
        if cands:
            q["having"] = having(rng, [s["as"] for s in cands], keys)
    return q


def agg_calculate(rng, alias, table, group):
    """Aggregates as operands of functions and conditions."""
    def number(fns=("count*", "count", "countd", "sum", "min", "max")):
        fn = rng.choice(fns)
        return ["agg", fn] if fn == "count*" else ["agg", fn, num_col(rng, alias, table)]
    words = {"t": "h", "x": "z"}.get(table)
    roll = rng.random()
    if roll < 0.25:
        return ["coalesce", number(("sum", "min", "max")), ["l", 0]]
    if roll < 0.5:
        test = ["cmp", rng.choice([">", ">="]), number(("count*", "count", "sum", "max")), ["l", rng.choice([1, 2, 3, 5])]]
        if rng.random() < 0.2:
            test = [rng.choice(["and", "or"]), test, ["cmp", "<", ["agg", "count*"], ["l", 3]]]
        values = [number(("count*", "count", "max", "min")), rng.choice([["l", -1], number(("min", "max", "countd"))])]
        if group and rng.random() < 0.3:
            values[1] = copy.deepcopy(group[0])
        rng.shuffle(values)
        return [rng.choice(["if", "case"]), test] + values
    if roll < 0.65 and words:
        return ["concat", ["agg", "min", ["c", alias, words]], ["l", "-"], ["agg", "max", ["c", alias, words]]]
    if roll < 0.75:
        return ["concat", ["agg", "count*"], ["l", "/"], ["agg", "countd", num_col(rng, alias, table)]]
    return ["-", number(("max", "count*")), number(("min", "count", "countd"))]


def has_agg(e):
    return isinstance(e, list) and (e[:1] == ["agg"] or any(has_agg(x) for x in e))


def distinct_query(rng, alias="a", table="t", name="s.t"):
    cols = rng.sample(list({"t": ["g", "h", "k", "v"], "u": ["k", "r", "w"], "x": ["z", "y"]}[table]), rng.choice([1, 2]))
    return {"from": {"name": name, "alias": alias}, "where": where(rng, alias, table), "distinct": True,
            "select": [{"e": ["c", alias, c], "as": c} for c in cols]}


def plain_query(rng, alias="a", table="t", name="s.t", key=None):
    key = key or {"t": "id", "u": "uid", "x": "xid"}[table]
    select = [{"e": ["c", alias, key], "as": "p"}]
    for i in range(rng.choice([0, 1, 2, 3])):
        select.append({"e": scalar_expr(rng, alias, table), "as": "c%d" % i})
    return {"from": {"name": name, "alias": alias}, "where": where(rng, alias, table), "select": select}


def window_expr(rng, alias="a", table="t", ordered=True):
    key = {"t": "id", "u": "uid", "x": "xid"}[table]
    part = [["c", alias, c] for c in rng.sample({"t": ["g", "k", "h"], "u": ["k", "r"], "x": ["y"]}[table], rng.choice([0, 1, 1]))]
    order = []
    if rng.random() < 0.5:
        order.append([["c", alias, rng.choice({"t": ["k", "g", "v"], "u": ["w"], "x": ["y"]}[table])], rng.choice([1, -1])])
    order.append([["c", alias, key], rng.choice([1, 1, -1])])
    fn = rng.choice(["row_number", "lag", "lead", "first_value", "last_value", "nth_value", "ntile", "sum", "count*", "min", "max", "avg"])
    val = num_col(rng, alias, table)
    if fn in ("sum", "count*", "min", "max", "avg") and rng.random() < 0.4:
        order = []
    args = {"row_number": [], "count*": [], "ntile": [["l", rng.choice([1, 2, 3])]], "nth_value": [val, ["l", rng.choice([1, 2])]],
            "lag": rng.choice([[val], [val, ["l", 1]], [val, ["l", 2], ["l", -7]]]),
            "lead": rng.choice([[val], [val, ["l", 1]], [val, ["l", 2], ["l", -7]]])}.get(fn, [val])
    return ["win", fn, args, part, order]


def joined_window_expr(rng):
    """A window over t a joined with u b; the last two order keys make the order total."""
    tables = {"a": "t", "b": "u"}
    def col():
        alias = rng.choice(["a", "b"])
        return num_col(rng, alias, tables[alias])
    part = [rng.choice([col(), ["+", ["c", "a", "k"], ["l", 1]], ["c", "a", "h"]]) for _ in range(rng.choice([0, 1, 1, 2]))]
    order = [[col(), rng.choice([1, -1])]] if rng.random() < 0.5 else []
    order += [[["c", "a", "id"], rng.choice([1, -1])], [["c", "b", "uid"], rng.choice([1, -1])]]
    fn = rng.choice(["row_number", "lag", "lead", "first_value", "last_value", "sum", "count*", "min", "max", "avg"])
    if fn in ("sum", "count*", "min", "max", "avg") and rng.random() < 0.4:
        order = []
    return ["win", fn, [] if fn in ("row_number", "count*") else [col()], part, order]


def window_calculate(rng, win, col):
    """A window function together with plain columns in one expression."""
    roll = rng.random()
    if roll < 0.5:
        e = [rng.choice(["+", "-", "*"]), col(), win]
        return e if rng.random() < 0.7 else [e[0], e[2], e[1]]
    if roll < 0.8:
        e = [rng.choice(["if", "case"]), ["cmp", rng.choice([">", "<", "="]), col(), ["l", rng.choice([1, 2, 3])]], win, col()]
        return e if rng.random() < 0.5 else e[:2] + [e[3], e[2]]
    return ["coalesce", win, col()] if rng.random() < 0.5 else ["coalesce", col(), win]


def name_windows(rng, select):
    """Moves windows to a WINDOW clause."""
    specs = {}
    def walk(e):
        if not isinstance(e, list):
            return e
        if e and e[0] == "win":
            name = specs.setdefault(repr(e[3:5]), "w%s" % "xyz"[len(specs) % 3] + str(len(specs)))
            return e + [name]
        return [walk(x) for x in e]
    for s in select:
        s["e"] = walk(s["e"])


def dress(rng, q):
    """The same query written another way: columns without their table, GROUP BY the alias, no AS, upper case."""
    style = {}
    if rng.random() < 0.3:
        style["bare"] = rng.choice([1, 2])
    if rng.random() < 0.3 and q.get("group"):
        style["group_alias"] = True
    if rng.random() < 0.15:
        style["noas"] = True
    if rng.random() < 0.25:
        style["upper"] = True
    if rng.random() < 0.25 and q.get("order") and not q.get("distinct") and not q.get("group") and not any(has_agg(s["e"]) for s in q["select"]):
        columns = {s["as"]: s["e"][1] for s in q["select"] if s["e"][0] == "c"}
        if all(columns.get(n) == q["from"]["alias"] for n, _ in q["order"]):
            style["order_column"] = True
    if style:
        q["style"] = style
    return q


def asks_order(q):
    """Whether the storage may be asked to sort: by columns, not by output names."""
    style = q.get("style") or {}
    names = {s["as"]: s["e"][2] for s in q["select"] if s["e"][0] == "c"}
    return bool(q.get("order")) and any(n in names and (style.get("order_column") or style.get("bare") == 2 and names[n] == n) for n, _ in q["order"])


def having(rng, names, keys=()):
    """A condition over output columns: names are numeric ones, keys (name, sample values) of any type."""
    def col():
        return ["c", "", rng.choice(names)]

    def one(depth=0):
        roll = rng.random()
        if depth < 2 and roll < 0.2:
            return [rng.choice(["or", "or", "and"]), one(depth + 1), one(depth + 1)]
        if depth < 2 and roll < 0.27:
            return ["not", one(depth + 1)]
        if keys and roll < 0.4:
            k, values = rng.choice(keys)
            k = ["c", "", k]
            if isinstance(values[0], str):
                return rng.choice([["cmp", rng.choice(["=", "!="]), k, ["l", rng.choice(values)]], ["in", k, values[:2]], ["notin", k, values[:1]],
                                   ["like", k, rng.choice(["%a%", "a%", "_", "%", "%'%"])]])
            return rng.choice([["cmp", rng.choice(["=", "!=", "<", ">="]), k, ["l", rng.choice(values)]], ["in", k, values[:2]],
                               ["notin", k, values[:1]], ["isnull", k, rng.random() < 0.5]])
        if roll < 0.5:
            return rng.choice([["in", col(), [1, 2, 5]], ["notin", col(), [1, 3]], ["between", col(), 1, rng.choice([2, 4])],
                               ["notbetween", col(), 1, 2], ["isnull", col(), rng.random() < 0.5]])
        if roll < 0.65:
            return ["cmp", rng.choice(["=", "<", ">", "<=", ">=", "!="]), col(), rng.choice([col(), ["+", col(), ["l", 1]]])]
        if roll < 0.75:
            return ["cmp", rng.choice([">", "<=", "!="]), ["coalesce", col(), ["l", 0]], ["l", rng.choice([0, 1, 3])]]
        if roll < 0.85:
            return ["cmp", rng.choice(["=", "<", ">", "<=", ">=", "!="]), [rng.choice(["+", "*"]), col(), ["l", 2]], ["l", rng.choice([2, 4, 6])]]
        return ["cmp", rng.choice([">", ">=", "<", "<=", "=", "!="]), col(), ["l", rng.choice([0, 1, 2, 3, 5])]]
    return [one() for _ in range(rng.choice([1, 1, 2]))]


def order_limit(rng, q, unique, others, limit_p=0.6, order_p=0.75):
    """unique: output alias that makes the order total."""
    if rng.random() < order_p:
        order = []
        for c in rng.sample(others, min(len(others), rng.choice([0, 1, 1, 2]))):
            order.append([c, rng.choice([1, -1])])
        if rng.random() < 0.8 or not order:
            order.append([unique, rng.choice([1, 1, -1])])
        q["order"] = order
    if rng.random() < limit_p:
        q["limit"] = rng.choice([1, 1, 2, 3, 4, 5, 8, 30])
        if rng.random() < 0.5:
            q["offset"] = rng.choice([1, 2, 3, 5, 9])
            q["comma"] = rng.random() < 0.3
    return q
