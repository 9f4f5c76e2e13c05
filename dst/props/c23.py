"""C23: a memory table holds exactly what statements and the API of its engine last put there."""
import copy

from .. import gen, harness, hist
from ..harness import violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("histories of push, get and pop calls and of statements that write, copy, delete, join and aggregate memory tables, in two engines and contexts of them, the caller changing the rows "
        "it pushed or got, storage failures, engines closed and opened anew; after each step every memory table of both engines is compared with a table machine")
REAL = ["syncanysql memory API of engine and context, compiler, executor, query and delete taskers", "syncany core memory database, loaders and outputers"]
STUB = ["storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["rows of one memory table have the same columns", "keys are unique in a table (a plain insert that would repeat one is not made)"]

NAMES = ["m1", "m2", "m3", "mm.a", "mm.m1", "mn.m1"]
CONFIG_DBS = [{"name": "mm", "driver": "memory"}, {"name": "mn", "driver": "memory"}]


def row(rng, i):
    return {"id": i, "v": rng.choice([None, 0, 1, 2, 5, 2.5]), "h": rng.choice(["a", "b", "", "x y", None])}


def cond(rng):
    if rng.random() < 0.5:
        return None
    return ["in", rng.sample(range(1, 10), 3)] if rng.random() < 0.25 else [rng.choice(["=", ">", ">=", "<", "<=", "!="]), rng.choice([1, 2, 3, 5, 8])]


def holds(c, i):
    if c is None:
        return True
    if c[0] == "in":
        return i in c[1]
    return {"=": i == c[1], ">": i > c[1], ">=": i >= c[1], "<": i < c[1], "<=": i <= c[1], "!=": i != c[1]}[c[0]]


def cond_sql(c, column, word=" where "):
    if c is None:
        return ""
    return "%s%s %s %s" % (word, column, c[0], "(%s)" % ", ".join(map(str, c[1])) if c[0] == "in" else c[1])


def generate(rng, index, tier):
    steps = []
    for _ in range(rng.choice([4, 8, 12, 16])):
        roll = rng.random()
        s = {"e": rng.choice([0, 0, 1]), "via": rng.choice(["engine", "engine", "context"]), "t": rng.choice(NAMES), "op": None}
        if roll < 0.2:
            ids = rng.sample(range(1, 10), rng.choice([0, 1, 1, 2, 4]))
            s.update(op="push", t=rng.choice(NAMES[:3]), rows=[row(rng, i) for i in ids], one=len(ids) == 1 and rng.random() < 0.5, touch=rng.random() < 0.5)
        elif roll < 0.3:
            s.update(op=rng.choice(["get", "pop"]), t=rng.choice(NAMES[:3]), touch=rng.random() < 0.5)
        elif roll < 0.7:
            s.update(op="write", mode=rng.choice([None, "I", "U", "U", "UI", "UI", "UDI", "DI"]), source=rng.choice(["storage", "storage", "raw", "raw", "columns", "values", "sub", "union", "cte"]),
                     of=rng.choice(NAMES), cond=cond(rng), plus=rng.choice([0, 0, 1, 10]), rows=[row(rng, i) for i in rng.sample(range(1, 10), rng.choice([1, 2, 3]))],
                     narrow=rng.random() < 0.3)
        elif roll < 0.8:
            s.update(op="delete", cond=cond(rng) if rng.random() < 0.8 else None)
        elif roll < 0.97:
            s.update(op="read", how=rng.choice(["raw", "columns", "join", "agg", "into"]), of=rng.choice(NAMES), cond=cond(rng))
        else:
            s.update(op="reopen")
        steps.append(s)
    t = [row(rng, i) for i in sorted(rng.sample(range(1, 12), rng.choice([1, 3, 5, 8])))]
    plan = {"tables": {"t": t}, "steps": steps, "session": harness.pick_session(rng, len(t), 0.5), "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30)}
    if rng.random() < 0.3:
        plan["aim"] = [harness.aim(rng, ["error", "error", "lost_ack", "interrupt", "stall"], 0.3) for _ in range(rng.choice([1, 1, 2]))]
    return plan


def compiled(n, s, mem, t):
    """(sql, table written or None, mode, rows it gives, scope condition) of a write, read or delete step; None when it is not made."""
    target = "`%s`" % s["t"] if "." not in s["t"] else "`%s`.`%s`" % tuple(s["t"].split("."))
    if s["op"] == "delete":
        if s["cond"] and s["cond"][0] in ("<", "<=", "!=") and False:
            return None
        return "delete from %s%s" % (s["t"], cond_sql(s["cond"], "id")), None
    if s["op"] == "read":
        rows, other = [r for r in mem.get(s["t"], []) if holds(s["cond"], r["id"])], {r["id"]: r for r in mem.get(s["of"], [])}
        out = "insert into s.r%d " % n
        where = cond_sql(s["cond"], "x.id")
        if s["how"] == "raw":
            return out + "select * from %s x%s" % (s["t"], where), rows
        if s["how"] == "columns":
            return out + "select x.h as h, x.id as id from %s x%s" % (s["t"], where), [{"h": r["h"], "id": r["id"]} for r in rows]
        if s["how"] == "join":
            if s["of"] == s["t"]:
                return None
            return out + "select x.id as id, y.v as w from %s x left join %s y on x.id = y.id%s" % (s["t"], s["of"], where), [{"id": r["id"], "w": other.get(r["id"], {"v": None})["v"]} for r in rows]
        if s["how"] == "agg":
            return out + "select count(*) as n, max(x.id) as top from %s x%s" % (s["t"], where), [{"n": len(rows), "top": max(r["id"] for r in rows)}] if rows else []
        return "select x.id as id, x.v as v, x.h as h into @seen%d from %s x%s" % (n, s["t"], where), rows
    mode, source = s["mode"], s["source"]
    if mode:
        target = "`%s<%s>`" % (s["t"], mode) if "." not in s["t"] else "`%s`.`%s<%s>`" % (tuple(s["t"].split(".")) + (mode,))
    head = "insert into %s " % target
    if source == "values":
        rows = s["rows"]
        text = head + "(id, v, h) values %s" % ", ".join("(%s)" % ", ".join({type(None): "null", str: "'%s'" % v}.get(type(v), str(v)) for v in (r["id"], r["v"], r["h"])) for r in rows)
        return text, rows
    plus = s["plus"] if mode in (None, "I", "UI", "U") else 0
    if source == "storage":
        rows = [r for r in t if holds(s["cond"], r["id"])]
        of = "s.t"
    else:
        rows = [r for r in mem.get(s["of"], []) if holds(s["cond"], r["id"])]
        of = s["of"]
    where = cond_sql(s["cond"], "x.id")
    if source == "raw":
        return head + "select * from %s x%s" % (of, where), rows
    if source == "sub":
        return head + "select * from (select * from %s x%s) y" % (of, where), rows
    if source == "cte":
        return head + "with w as (select * from %s x%s) select * from w y" % (of, where), rows
    if source == "union":
        return head + "select * from %s x%s union all select * from %s y where y.id > 99" % (of, where, of), rows
    if s["narrow"] and mode == "U":
        return head + "select x.id%s as id, x.v as v from %s x%s" % ("+%d" % plus if plus else "", of, where), [{"id": r["id"] + plus, "v": r["v"]} for r in rows]
    return (head + "select x.id%s as id, x.v as v, x.h as h from %s x%s" % ("+%d" % plus if plus else "", of, where),
            [{"id": r["id"] + plus, "v": r["v"], "h": r["h"]} for r in rows])


def written(s, old, new):
    mode = s["mode"] or "I"
    if mode == "I":
        return old + new
    fresh, have = {r["id"]: r for r in new}, {r["id"] for r in old}
    scoped = lambda r: s["source"] in ("values", "union") or s["source"] in ("sub", "cte") or holds(s["cond"], r["id"])  # noqa: E731
    if mode == "DI":
        return [r for r in old if not scoped(r)] + new
    out = []
    for r in old:
        if r["id"] in fresh and (mode != "UDI" or scoped(r)):
            r = dict(r, **fresh[r["id"]])
        elif mode == "UDI" and scoped(r):
            continue
        out.append(r)
    return out + ([r for r in new if r["id"] not in have] if mode != "U" else [])


class Run(object):
    def __init__(self, plan, w):
        self.plan, self.w, self.engines, self.contexts, self.done = plan, w, {}, {}, []
        self.mem = [{}, {}]

    def open(self, i):
        self.engines[i] = harness.engine(dict(harness.CONFIG, databases=list(harness.CONFIG["databases"]) + CONFIG_DBS))
        self.contexts[i] = self.engines[i].context()
        harness.set_session(self.engines[i], self.plan["session"])

    def content(self, i, name):
        if "." not in name:
            return [dict(r) for r in self.engines[i].get_memory_datas(name)]
        query = self.engines[i].get_database(name.split(".")[0]).query(name, ["id"])
        return [dict(r) for r in query.commit()]

    def check(self):
        for i in (0, 1):
            for name in NAMES:
                bad = hist.same(self.content(i, name), self.mem[i].get(name, []))
                if bad:
                    return "engine %d: memory table %s: %s" % (i, name, bad)
        return None

    def go(self):
        self.open(0)
        self.open(1)
        for n, s in enumerate(self.plan["steps"]):
            problem = self.step(n, s) or self.check()
            if problem:
                return problem
        return None

    def step(self, n, s):
        i, mem = s["e"], self.mem[s["e"]]
        o = self.engines[i] if s["via"] == "engine" else self.contexts[i]
        if s["op"] == "reopen":
            self.done.append("engine %d: closed, opened anew" % i)
            self.engines[i].close()
            self.open(i)
            self.mem[i] = {}
            return None
        if s["op"] == "push":
            if {r["id"] for r in s["rows"]} & {r["id"] for r in mem.get(s["t"], [])}:
                return None
            self.done.append("%s %d: push %s %s%s" % (s["via"], i, s["t"], s["rows"], ", which the caller changes afterwards" if s["touch"] else ""))
            rows = copy.deepcopy(s["rows"])
            o.push_memory_datas(s["t"], rows[0] if s["one"] else rows)
            for r in rows if s["touch"] else ():
                r["v"] = "changed by the caller"
            if s["touch"]:
                rows.append({"id": 77, "v": 1, "h": "never pushed"})
            mem[s["t"]] = mem.get(s["t"], []) + [dict(r) for r in s["rows"]]
            return None
        if s["op"] in ("get", "pop"):
            self.done.append("%s %d: %s %s%s" % (s["via"], i, s["op"], s["t"], ", the caller changing the rows" if s["touch"] else ""))
            got = getattr(o, s["op"] + "_memory_datas")(s["t"])
            bad = hist.same(got, mem.get(s["t"], []))
            if bad:
                return "%s_memory_datas(%r): %s" % (s["op"], s["t"], bad)
            for r in got if s["touch"] else ():
                r["id"] = 88
            if s["touch"]:
                got.append({"id": 77})
            if s["op"] == "pop":
                mem.pop(s["t"], None)
            return None
        made = compiled(n, s, mem, self.plan["tables"]["t"])
        if made is None:
            return None
        text, rows = made
        old = mem.get(s["t"], [])
        if s["op"] == "write":
            new = [dict(r) for r in rows]
            if not new and s["mode"] == "UDI" and s["source"] in ("raw", "sub", "cte", "union"):
                return None        # refused with a KeyError: no row tells the columns of `select *`
            if not s["mode"] or s["mode"] == "I" or s["mode"] == "DI":
                keys = [r["id"] for r in (written(s, old, new))]
                if len(set(keys)) < len(keys):
                    return None
        self.done.append("%s %d: %s" % (s["via"], i, text))
        faults = len(self.w.injected)
        try:
            harness.run_sql(self.w, o, text)
        except BaseException as ex:
            if len(self.w.injected) == faults:
                return "failed: " + harness.err(ex)
            self.done.append("  failed: %s" % harness.err(ex)[:60])
            if s["op"] == "write":
                got = self.content(i, s["t"])
                bad = hist.partial_problem({"op": "write", "mode": s["mode"] or "I", "target": s["t"], "values": []}, old, written(s, old, new), got)
                if bad:
                    return "memory table %s after the failed statement: %s" % (s["t"], bad)
                mem[s["t"]] = got
            return None
        if any(k in ("error_before", "lost_ack", "interrupt") for k, _, _ in self.w.injected[faults:]):
            return "returned although the storage failed"
        if s["op"] == "write":
            mem[s["t"]] = written(s, old, new)
        elif s["op"] == "delete":
            mem[s["t"]] = [r for r in old if not holds(s["cond"], r["id"])]
        elif s["how"] == "into":
            got = o.get_variable("@seen%d" % n)
            got = got if isinstance(got, list) else [got] if got else []
            bad = hist.same(got, rows)
            if bad:
                return "%s gave %s: %s" % (text, got, bad)
        else:
            bad = hist.same(self.w.tables.get("r%d" % n, []), rows)
            if bad:
                return "%s gave %s: %s" % (text, self.w.tables.get("r%d" % n, []), bad)
        self.w.reach.add(s.get("source") or s.get("how") or s["op"])
        return None


def execute(plan):
    result = {"violations": [], "stats": {}}
    if plan.get("aim") and "faults" not in plan:
        def dry(w, e):
            Run(plan, w).go()
        harness.place_faults(plan, harness.dry_ops(plan, dry))
    w = harness.world(plan)
    run = Run(plan, w)
    try:
        problem = run.go()
    except Exception as ex:
        import traceback
        problem = "failed: %s %s" % (harness.err(ex), traceback.format_exc()[-400:])
    for i in run.engines:
        run.engines[i].close()
    harness.saw(w, [list(m.values()) for m in run.mem])
    if problem:
        result["violations"].append(violation("wrong_memory", "session %s: %s\n  after %s\n  s.t %s\n  faults %s" % (
            plan["session"], problem, "\n    ".join(run.done), [tuple(r.values()) for r in plan["tables"]["t"]], w.injected)))
    for s in plan["steps"]:
        result["stats"][s["op"]] = result["stats"].get(s["op"], 0) + 1
    result["nontrivial"] = len(run.done) > 2
    result["sample"] = {"history": run.done[:8]}
    return result
