"""Executable reference model of the SQL subset the simulator generates.

A query is a JSON tree; `sql()` renders it for the code under test, `evaluate()`
computes its meaning directly over whole tables (no batches, no pages, no
partial results).  `judge()` compares an observed result with that meaning,
allowing exactly the freedom SQL leaves open (row order without ORDER BY, which
rows a LIMIT without a total order keeps, order inside collected lists).
"""
import datetime
import decimal
import json
import re
from collections import Counter

AGGS = ("count*", "count", "countd", "sum", "min", "max", "avg", "gconcat", "garray", "guniq",
        "band", "bor", "bxor", "jarr", "jobj", "user")
_AGG_SQL = {"count": "count(%s)", "countd": "count(distinct %s)", "sum": "sum(%s)", "min": "min(%s)", "max": "max(%s)",
            "avg": "avg(%s)", "gconcat": "group_concat(%s)", "garray": "group_array(%s)", "guniq": "group_uniq_array(%s)",
            "band": "group_bit_and(%s)", "bor": "group_bit_or(%s)", "bxor": "group_bit_xor(%s)",
            "jarr": "json_arrayagg(%s)", "jobj": "json_objectagg(%s)", "user": "sim_spread(%s)"}


# ---------------------------------------------------------------- rendering
def lit(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return "'" + v.replace("'", "''") + "'"
    return repr(v)


def expr_sql(e):
    k = e[0]
    if k == "c":
        return "%s.%s" % (e[1], e[2]) if e[1] else e[2]
    if k == "l":
        return lit(e[1])
    if k in ("+", "-", "*"):
        return "(%s%s%s)" % (expr_sql(e[1]), k, expr_sql(e[2]))
    if k == "if":
        return "if(%s,%s,%s)" % (cond_sql(e[1]), expr_sql(e[2]), expr_sql(e[3]))
    if k == "case":
        return "case when %s then %s else %s end" % (cond_sql(e[1]), expr_sql(e[2]), expr_sql(e[3]))
    if k == "coalesce":
        return "coalesce(%s,%s)" % (expr_sql(e[1]), expr_sql(e[2]))
    if k == "concat":
        return "concat(%s)" % ",".join(expr_sql(x) for x in e[1:])
    if k == "agg":
        if e[1] == "count*":
            return "count(*)"
        return _AGG_SQL[e[1]] % ",".join(expr_sql(x) for x in e[2:])
    if k == "win":
        over = []
        if e[3]:
            over.append("partition by " + ",".join(expr_sql(x) for x in e[3]))
        if e[4]:
            over.append("order by " + ",".join(expr_sql(x) + (" desc" if d < 0 else "") for x, d in e[4]))
        fn = e[1]
        call = "count(*)" if fn == "count*" else "%s(%s)" % (fn, ",".join(expr_sql(x) for x in e[2]))
        if len(e) > 5:
            return "%s over %s" % (call, e[5])
        return "%s over (%s)" % (call, " ".join(over))
    if k == "sub":
        return "(%s)" % sql(e[1])
    if k == "var":
        return e[1]
    raise ValueError(k)


def cond_sql(c):
    k = c[0]
    if k == "cmp":
        return "%s%s%s" % (expr_sql(c[2]), c[1], expr_sql(c[3]))
    if k == "in":
        return "%s in (%s)" % (expr_sql(c[1]), ",".join(lit(v) for v in c[2]))
    if k == "notin":
        return "%s not in (%s)" % (expr_sql(c[1]), ",".join(lit(v) for v in c[2]))
    if k == "isnull":
        return "%s is %snull" % (expr_sql(c[1]), "not " if c[2] else "")
    if k == "between":
        return "%s between %s and %s" % (expr_sql(c[1]), lit(c[2]), lit(c[3]))
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(cond_sql(x) for x in c[1:]) + ")"
    if k == "insub":
        return "%s in (%s)" % (expr_sql(c[1]), sql(c[2]))
    if k == "exists":
        return "exists (%s)" % sql(c[1])
    if k == "not":
        return "not (%s)" % cond_sql(c[1])
    if k == "notbetween":
        return "%s not between %s and %s" % (expr_sql(c[1]), lit(c[2]), lit(c[3]))
    if k == "like":
        return "%s like %s" % (expr_sql(c[1]), lit(c[2]))
    raise ValueError(k)


def union_distinct(q, i):
    """Whether the operator before part i+1 of a UNION removes duplicates."""
    ops = q.get("ops") or []
    return bool(ops[i]) if i < len(ops) else False


def source_sql(src):
    if "sub" in src:
        return "(%s) %s" % (sql(src["sub"]), src["alias"])
    return "%s %s" % (src["name"], src["alias"])


KEYWORDS = re.compile(r"'(?:[^']|'')*'|`[^`]*`|\b(select|distinct|from|where|group|order|by|having|limit|offset|and|or|not|in|is|null|between|like|"
                      r"as|desc|asc|union|all|case|when|then|else|end|left|inner|right|join|on|with|over|partition|"
                      r"count|sum|min|max|avg|if|coalesce|concat|group_concat)\b")


def sql(q):
    text, style = plain_sql(q), q.get("style") or {}
    if style.get("bare") and q.get("from") and not q.get("joins") and not q.get("ctes") and "(select" not in text:
        # columns without the name of their table
        text = re.sub(r"\b%s\." % q["from"]["alias"], "", text)
        if style["bare"] == 2:
            text = text.replace(" from %s %s" % (q["from"]["name"], q["from"]["alias"]), " from " + q["from"]["name"])
    if style.get("noas"):
        text = re.sub(r"('(?:[^']|'')*'|`[^`]*`)| as (\w+)", lambda m: m.group(1) or " " + m.group(2), text)
    if style.get("upper"):
        text = KEYWORDS.sub(lambda m: m.group(0).upper() if m.group(1) else m.group(0), text)
    return text


def plain_sql(q):
    parts = []
    if q.get("ctes"):
        parts.append("with " + ("recursive " if any(c.get("recursive") for c in q["ctes"]) else "") + ", ".join(
            "%s as (%s)" % (c["name"], sql(c["query"])) for c in q["ctes"]))
    if q.get("union"):
        body = sql(dict(q["union"][0]))
        for i, x in enumerate(q["union"][1:]):
            body += (" union " if union_distinct(q, i) else " union all ") + sql(dict(x))
        if parts:
            return parts[0] + " " + body
        return body
    parts.append("select " + ("distinct " if q.get("distinct") else "") + ", ".join(
        "%s as %s" % (expr_sql(s["e"]), s["as"]) if not s.get("bare") else expr_sql(s["e"]) for s in q["select"]))
    comma = q.get("comma_join")
    if q.get("from"):
        parts.append("from " + ", ".join(source_sql(x) for x in [q["from"]] + ([j["src"] for j in q["joins"]] if comma else [])))
    if comma:
        ons = [["cmp", "=", a, b] for j in q["joins"] for a, b in j["on"]]
        q = dict(q, joins=[], where=ons + list(q.get("where") or ()))
    for j in q.get("joins", ()):
        on = ["%s=%s" % (expr_sql(a), expr_sql(b)) for a, b in j["on"]] + [cond_sql(c) for c in j.get("where", ())]
        if j.get("using"):
            parts.append("%s join %s using (%s)" % (j["kind"], source_sql(j["src"]), ", ".join(a[2] for a, _ in j["on"])))
            continue
        parts.append("%s join %s on %s" % (j["kind"], source_sql(j["src"]), " and ".join(on)))
    if q.get("where"):
        parts.append("where " + " and ".join(cond_sql(c) for c in q["where"]))
    if q.get("group"):
        names = {repr(x["e"]): x["as"] for x in q["select"]} if (q.get("style") or {}).get("group_alias") else {}
        parts.append("group by " + ", ".join(names.get(repr(g)) or expr_sql(g) for g in q["group"]))
    if q.get("having"):
        parts.append("having " + " and ".join(cond_sql(c) for c in q["having"]))
    named = {e[5]: e for s in q["select"] for e in win_exprs(s["e"]) if len(e) > 5}
    if named:
        parts.append("window " + ", ".join("%s as (%s" % (n, expr_sql(e[:5]).split(" over (", 1)[1]) for n, e in sorted(named.items())))
    if q.get("order"):
        named = {x["as"]: expr_sql(x["e"]) for x in q["select"] if x["e"][0] == "c"} if (q.get("style") or {}).get("order_column") else {}
        parts.append("order by " + ", ".join(named.get(n, n) + (" desc" if d < 0 else "") for n, d in q["order"]))
    if q.get("limit") is not None:
        if q.get("offset") and q.get("comma"):
            parts.append("limit %d,%d" % (q["offset"], q["limit"]))
        else:
            parts.append("limit %d" % q["limit"])
            if q.get("offset"):
                parts.append("offset %d" % q["offset"])
    return " ".join(parts)


# ---------------------------------------------------------------- evaluation
class Env(object):
    """One candidate row: alias -> row, chained to the enclosing query's row."""

    def __init__(self, rows, outer=None):
        self.rows = rows
        self.outer = outer

    def get(self, alias, col):
        env = self
        while env is not None:
            if alias:
                if alias in env.rows:
                    return env.rows[alias].get(col)
            else:
                for r in env.rows.values():
                    if col in r:
                        return r[col]
            env = env.outer
        raise KeyError((alias, col))


def has_agg(e):
    if not isinstance(e, (list, tuple)):
        return False
    if e and e[0] == "agg":
        return True
    if e and e[0] in ("sub", "win"):
        return False
    return any(has_agg(x) for x in e if isinstance(x, (list, tuple)))


def has_win(e):
    if not isinstance(e, (list, tuple)):
        return False
    return bool(e) and (e[0] == "win" or any(has_win(x) for x in e if isinstance(x, (list, tuple))))


def win_exprs(e):
    if not isinstance(e, (list, tuple)) or not e:
        return []
    if e[0] == "win":
        return [e]
    return [y for x in e if isinstance(x, (list, tuple)) for y in win_exprs(x)]


def arith(op, a, b):
    if a is None or b is None:
        return None
    if isinstance(a, decimal.Decimal) != isinstance(b, decimal.Decimal):
        a, b = [x if isinstance(x, int) else float(x) for x in (a, b)]
    return a + b if op == "+" else a - b if op == "-" else a * b


def total(vals):
    if any(isinstance(v, float) for v in vals):
        vals = [float(v) for v in vals]
    return sum(vals)


def ev(e, env, ctx, group=None, win=None):
    k = e[0]
    if k == "c":
        return env.get(e[1], e[2])
    if k == "l":
        return e[1]
    if k in ("+", "-", "*"):
        return arith(k, ev(e[1], env, ctx, group, win), ev(e[2], env, ctx, group, win))
    if k in ("if", "case"):
        return ev(e[2] if truth(e[1], env, ctx, group, win) else e[3], env, ctx, group, win)
    if k == "coalesce":
        a = ev(e[1], env, ctx, group, win)
        return ev(e[2], env, ctx, group, win) if a is None else a
    if k == "concat":
        vs = [ev(x, env, ctx, group, win) for x in e[1:]]
        return None if any(v is None for v in vs) else "".join(str(v) for v in vs)
    if k == "agg":
        return aggregate(e[1], [[ev(x, r, ctx) for x in e[2:]] for r in group])
    if k == "win":
        return win[json.dumps(e)]
    if k == "sub":
        rows = evaluate(e[1], ctx, env)
        if not rows:
            return None
        return list(rows[0].values())[0]
    if k == "var":
        return ctx["vars"].get(e[1])
    raise ValueError(k)


def truth(c, env, ctx, group=None, win=None):
    return verdict(c, env, ctx, group, win) is True


def verdict(c, env, ctx, group=None, win=None):
    """True, False, or None when a NULL leaves it unknown."""
    k = c[0]
    if k == "not":
        v = verdict(c[1], env, ctx, group, win)
        return None if v is None else not v
    if k in ("and", "or"):
        vs = [verdict(x, env, ctx, group, win) for x in c[1:]]
        if (k == "or") in vs:
            return k == "or"
        return None if None in vs else k == "and"
    if k in ("cmp", "in", "notin", "between", "notbetween", "like", "insub"):
        if ev(c[1] if k != "cmp" else c[2], env, ctx, group, win) is None or k == "cmp" and ev(c[3], env, ctx, group, win) is None:
            return None
    if k == "notbetween":
        return not c[2] <= ev(c[1], env, ctx, group, win) <= c[3]
    if k == "like":
        return re.fullmatch("".join(".*" if x == "%" else "." if x == "_" else re.escape(x) for x in c[2]), ev(c[1], env, ctx, group, win), re.I | re.S) is not None
    return simple(c, env, ctx, group, win)


def simple(c, env, ctx, group=None, win=None):
    k = c[0]
    if k == "cmp":
        a, b = ev(c[2], env, ctx, group, win), ev(c[3], env, ctx, group, win)
        if a is None or b is None:
            return False
        op = c[1]
        return (a == b if op == "=" else a != b if op == "!=" else a > b if op == ">" else
                a >= b if op == ">=" else a < b if op == "<" else a <= b)
    if k == "in":
        a = ev(c[1], env, ctx, group, win)
        return a is not None and a in c[2]
    if k == "notin":
        a = ev(c[1], env, ctx, group, win)
        return a is not None and a not in c[2]
    if k == "between":
        a = ev(c[1], env, ctx, group, win)
        return a is not None and c[2] <= a <= c[3]
    if k == "isnull":
        return (ev(c[1], env, ctx, group, win) is None) != bool(c[2])
    if k == "insub":
        a = ev(c[1], env, ctx, group, win)
        return a is not None and a in [list(r.values())[0] for r in evaluate(c[2], ctx, env)]
    if k == "exists":
        return bool(evaluate(c[1], ctx, env))
    raise ValueError(k)


def aggregate(fn, args):
    if fn == "count*":
        return len(args)
    vals = [a[0] for a in args if a[0] is not None]
    if fn == "count":
        return len(vals)
    if fn == "countd":
        return len(set(vals))
    if fn == "sum":
        return total(vals) if vals else 0
    if fn == "avg":
        return total(vals) / len(vals) if vals else 0
    if fn == "min":
        return min(vals) if vals else None
    if fn == "max":
        return max(vals) if vals else None
    if fn == "user":
        return max(vals) - min(vals) if vals else None
    if fn == "gconcat":
        return ",".join(str(v) for v in vals)
    if fn in ("garray",):
        return vals
    if fn == "guniq":
        return list(set(vals))
    if fn in ("band", "bor", "bxor"):
        if not vals:
            return None
        out = vals[0]
        for v in vals[1:]:
            out = out & v if fn == "band" else out | v if fn == "bor" else out ^ v
        return out
    if fn == "jarr":
        return json.dumps(vals, default=str) if vals else None
    if fn == "jobj":
        return json.dumps({str(a[0]): a[1] for a in args})
    raise ValueError(fn)


def sort_key(v):
    if v is None:
        return (0, 0)
    if isinstance(v, (int, float)):
        return (1, v)
    return (2, str(v))


def hashable(v):
    return json.dumps(v, sort_keys=True, default=str) if isinstance(v, (list, dict)) else v


def source_rows(src, ctx, outer):
    if "sub" in src:
        return evaluate(src["sub"], ctx, outer)
    name = src["name"]
    if name in ctx["ctes"]:
        return ctx["ctes"][name]
    return ctx["tables"][name]


def row_envs(q, ctx, outer):
    if not q.get("from"):
        return [Env({}, outer)]
    alias = q["from"]["alias"]
    envs = [{alias: r} for r in source_rows(q["from"], ctx, outer)]
    for j in q.get("joins", ()):
        ralias, rrows = j["src"]["alias"], source_rows(j["src"], ctx, outer)
        cols = sorted({c for r in rrows for c in r}) or j["src"].get("cols", [])
        null = {c: None for c in cols}
        out, used = [], set()
        for rows in envs:
            hit = False
            for i, rr in enumerate(rrows):
                cand = dict(rows)
                cand[ralias] = rr
                env = Env(cand, outer)
                ok = True
                for a, b in j["on"]:
                    x, y = ev(a, env, ctx), ev(b, env, ctx)
                    if x is None or y is None or x != y:
                        ok = False
                        break
                if ok and all(truth(c, env, ctx) for c in j.get("where", ())):
                    hit = True
                    used.add(i)
                    out.append(cand)
            if not hit and j["kind"] == "left":
                cand = dict(rows)
                cand[ralias] = null
                out.append(cand)
        if j["kind"] == "right":
            lnull = {a: {} for a in (envs[0] if envs else {alias: {}})}
            for i, rr in enumerate(rrows):
                if i not in used:
                    cand = dict(lnull)
                    cand[ralias] = rr
                    out.append(cand)
        envs = out
    return [Env(e, outer) for e in envs]


def full_rows(q, ctx, outer=None):
    """Rows before ORDER BY / LIMIT, as a list of dicts."""
    if q.get("ctes"):
        ctx = dict(ctx, ctes=dict(ctx["ctes"]))
        for c in q["ctes"]:
            if c.get("recursive"):
                ctx["ctes"][c["name"]] = recursion(c, ctx, outer)
            else:
                ctx["ctes"][c["name"]] = evaluate(c["query"], ctx, outer)
    if q.get("union"):
        out = []
        for i, x in enumerate(q["union"]):
            names = [s["as"] for s in x["select"]]
            if not i:
                first = names
            out.extend(evaluate(x, ctx, outer) if names == first else [{n: r[m] for n, m in zip(first, names)} for r in evaluate(x, ctx, outer)])
            if i and union_distinct(q, i - 1):
                out = unique(out)
        return out
    envs = [e for e in row_envs(q, ctx, outer) if all(truth(c, e, ctx) for c in q.get("where", ()))]
    sel = q["select"]
    if q.get("group") or any(has_agg(s["e"]) for s in sel):
        groups = {}
        for e in envs:
            key = tuple(hashable(ev(g, e, ctx)) for g in q.get("group", ()))
            groups.setdefault(key, []).append(e)
        out = []
        for key, members in groups.items():
            out.append({s["as"]: ev(s["e"], members[0], ctx, members) for s in sel})
    else:
        win = windows(sel, envs, ctx)
        out = [{s["as"]: ev(s["e"], e, ctx, None, win[i]) for s in sel} for i, e in enumerate(envs)]
    if q.get("having"):
        out = [r for r in out if all(truth(c, Env({"": r}, outer), ctx) for c in q["having"])]
    if q.get("distinct"):
        out = unique(out)
    return out


def unique(rows):
    seen, uniq = set(), []
    for r in rows:
        k = tuple(hashable(r[n]) for n in sorted(r))
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    return uniq


def recursion(c, ctx, outer):
    """WITH RECURSIVE name AS (start UNION ALL step): the step is applied to the rows it added last until it adds none."""
    start, step = c["query"]["union"]
    rows = last = evaluate(start, ctx, outer)
    while last:
        last = evaluate(step, dict(ctx, ctes=dict(ctx["ctes"], **{c["name"]: last})), outer)
        rows = rows + last
        if len(rows) > 5000:
            raise ValueError("recursion does not end")
    return rows


def windows(sel, envs, ctx):
    win = [dict() for _ in envs]
    specs = []

    def find(e):
        if isinstance(e, (list, tuple)):
            if e and e[0] == "win":
                specs.append(e)
            else:
                for x in e:
                    find(x)
    for s in sel:
        find(s["e"])
    for e in specs:
        key = json.dumps(e)
        parts = {}
        for i, env in enumerate(envs):
            parts.setdefault(tuple(hashable(ev(p, env, ctx)) for p in e[3]), []).append(i)
        for idx in parts.values():
            order = list(idx)
            for x, d in reversed(e[4]):
                order.sort(key=lambda i: sort_key(ev(x, envs[i], ctx)), reverse=d < 0)
            args = {i: [ev(x, envs[i], ctx) for x in e[2]] for i in idx}
            n, fn = len(order), e[1]
            for pos, i in enumerate(order):
                if fn == "row_number":
                    v = pos + 1
                elif fn == "ntile":
                    v = int(pos / (n / float(args[i][0]))) + 1
                elif fn in ("lag", "lead"):
                    off = int(args[i][1]) if len(args[i]) > 1 else 1
                    at = pos - off if fn == "lag" else pos + off
                    v = args[order[at]][0] if 0 <= at < n else (args[i][2] if len(args[i]) > 2 else None)
                elif fn == "first_value":
                    v = args[order[0]][0]
                elif fn == "last_value":
                    v = args[order[-1]][0]
                elif fn == "nth_value":
                    at = int(args[i][1]) - 1
                    v = args[order[at]][0] if 0 <= at < n else None
                elif fn in ("sum", "count", "count*", "min", "max", "avg"):
                    scope = order[:pos + 1] if e[4] else order
                    v = aggregate(fn, [args[j] if args[j] else [1] for j in scope])
                else:
                    raise ValueError(fn)
                win[i][key] = v
    return win


def ordered(rows, order):
    for name, d in reversed(order or ()):
        rows = sorted(rows, key=lambda r: sort_key(r.get(name)), reverse=d < 0)
    return rows


def evaluate(q, ctx, outer=None):
    rows = ordered(full_rows(q, ctx, outer), q.get("order"))
    off = q.get("offset") or 0
    if q.get("limit") is not None:
        return rows[off:off + q["limit"]]
    return rows


def context(tables, variables=None):
    return {"tables": tables, "ctes": {}, "vars": variables or {}}


# ---------------------------------------------------------------- comparison
def column_kind(e):
    if e[0] == "agg":
        return {"garray": "list", "guniq": "list", "gconcat": "concat", "jarr": "jarr", "jobj": "jobj",
                "sum": "zero", "avg": "zero", "band": "zero", "bor": "zero", "bxor": "zero"}.get(e[1], "s")
    if e[0] == "win" and e[1] in ("sum", "avg"):
        return "zero"
    return "s"


def scalar(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, decimal.Decimal):
        v = float(v)
    if isinstance(v, float):
        v = round(v, 6)
        return int(v) if v == int(v) else v
    if isinstance(v, datetime.datetime) and v.tzinfo:
        return v.replace(tzinfo=None)          # syncany reads times without a zone as those of the session's zone
    return v


def canon(v, kind="s"):
    if kind == "zero":
        return scalar(v) if v is not None else 0
    if kind == "list":
        if v is None:
            v = []
        if not isinstance(v, (list, tuple, set)):
            return repr(v)
        return json.dumps(sorted((scalar(x) for x in v), key=sort_key), default=str)
    if kind == "concat":
        return ",".join(sorted((v or "").split(","))) if isinstance(v, str) or v is None else repr(v)
    if kind in ("jarr", "jobj"):
        if v is None:
            return None
        try:
            v = json.loads(v) if isinstance(v, str) else v
        except ValueError:
            return repr(v)
        if kind == "jarr":
            return json.dumps(sorted((scalar(x) for x in v), key=sort_key))
        return json.dumps({str(k): scalar(x) for k, x in v.items()}, sort_keys=True)
    v = scalar(v)
    return json.dumps(v, sort_keys=True, default=str) if isinstance(v, (list, dict, tuple, set)) else v


def kinds(q):
    while q.get("union"):
        q = q["union"][0]
    return {s["as"]: s.get("kind") or column_kind(s["e"]) for s in q["select"]}


def canon_rows(rows, ks):
    return [tuple((n, canon(r.get(n), k)) for n, k in ks.items()) + tuple(
        (n, "unexpected column") for n in r if n not in ks) for r in rows]


def judge(q, tables, observed, variables=None):
    """None when `observed` is a correct result of q, else a short description."""
    ks = kinds(q)
    want = full_rows(q, context(tables, variables))
    return judge_rows(want, q, ks, observed)


def judge_rows(want, q, ks, observed):
    want_c, got_c = canon_rows(want, ks), canon_rows(observed, ks)
    off, lim = q.get("offset") or 0, q.get("limit")
    if lim is None:
        lim, off = len(want_c), 0
    expect_n = max(0, min(lim, len(want_c) - off))
    if len(got_c) != expect_n:
        return "expected %d rows, got %d; expected(all) %s got %s" % (expect_n, len(got_c), short(want_c), short(got_c))
    extra = Counter(got_c) - Counter(want_c)
    if extra:
        return "wrong rows %s; correct rows are %s" % (short(list(extra)), short(want_c))
    if q.get("order"):
        def keyof(r):
            d = dict(r)
            return tuple(d.get(n) for n, _ in q["order"])
        srt = ordered([dict(r) for r in want_c], q["order"])
        want_keys = [tuple(r.get(n) for n, _ in q["order"]) for r in srt][off:off + lim]
        got_keys = [keyof(r) for r in got_c]
        if want_keys != got_keys:
            return "wrong order: expected keys %s got %s" % (short(want_keys), short(got_keys))
    return None


def short(rows, n=600):
    s = json.dumps([dict(r) if isinstance(r, tuple) and r and isinstance(r[0], tuple) else r for r in rows], default=str)
    return s if len(s) <= n else s[:n] + "..."
