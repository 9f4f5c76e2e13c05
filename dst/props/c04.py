"""C04: copying a table moves every row exactly once, while others write to it."""
from collections import Counter

from .. import gen, harness, model
from ..harness import violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a copy (or two-hop copy through a memory table) between two simulated storages in pages of random size, while another client of the "
        "source storage inserts, deletes and updates rows between the pages; every row that was there all along must arrive exactly once")
REAL = ["syncanysql parser, compiler, executor, query tasker with paging", "syncany core tasker, loaders, cursors, outputers, memory database"]
STUB = ["storage servers (simulated driver)", "the concurrent client of the source storage", "wall clock", "unique ids"]
ASSUMPTIONS = ["a storage paging by offset keeps the order of existing rows while rows are only appended",
               "a storage paging by key (rows after the last key seen) may see any concurrent change"]


def generate(rng, index, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34])
    t = gen.table_t(rng, n)
    for r in t:
        r["id"] *= 3                                  # leaves room for keys in between
    cols = ["id"] + rng.sample(["g", "h", "v", "k"], rng.choice([1, 2, 3]))
    if "v" not in cols:
        cols.append("v")
    where = []
    if rng.random() < 0.5:
        where = [rng.choice([["cmp", rng.choice([">", ">=", "<", "<="]), ["c", "a", "id"], ["l", rng.choice([2, 6, 9, 30])]],
                             ["in", ["c", "a", "k"], [0, 1, 2]], ["cmp", "=", ["c", "a", "k"], ["l", 1]],
                             ["cmp", ">", ["+", ["c", "a", "k"], ["l", 1]], ["l", 1]],
                             ["or", ["cmp", "=", ["c", "a", "k"], ["l", 1]], ["cmp", ">", ["c", "a", "id"], ["l", 9]]]])]
    storage = harness.pick_storage(rng)
    ordered = rng.random() < 0.6                      # asked of the storage, not sorted afterwards
    direction = rng.choice([1, 1, -1])
    any_change = ordered and storage["cursor"] == "keyset"
    hop = rng.random() < 0.25
    session = {"batch": harness.pick_batch(rng, n)}
    if rng.random() < 0.15:
        session = {}
    if rng.random() < 0.3:
        session["insert_batch"] = rng.choice([1, 2, 3, 5])
    writer = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        act = rng.choice(["append", "insert", "delete", "update"] if any_change and not hop else ["append"])
        if ordered and direction < 0 and act == "append" and not any_change:
            continue
        w = {"at": rng.randint(1, 2 + 2 * n // max(1, session.get("batch", n) or 1)), "act": act, "pick": rng.random()}
        if act in ("append", "insert"):
            row = gen.table_t(rng, 1)[0]
            if act == "insert":
                row["id"] = rng.choice([r["id"] for r in t] or [3]) + rng.choice([1, 2])
            w["row"] = row
        else:
            w["v"] = rng.choice([100, 101, 102])
        writer.append(w)
    if writer and not ordered:
        storage["shuffle"] = False
    calc = [rng.choice([["+", ["c", "a", "k"], ["l", 1]], ["+", ["c", "a", "v"], ["l", 1]], ["+", ["c", "a", "k"], ["c", "a", "id"]], ["+", ["c", "a", "id"], ["l", 5]]])] if rng.random() < 0.3 else []
    return {"calc": calc, "tables": {"t": t}, "ordered": ordered, "cols": cols, "where": where, "order": [["id", direction]] if ordered or rng.random() < 0.3 else None, "hop": hop,
            "mode": rng.choice([None, "I", "UI"]), "old": rng.random() < 0.3, "session": session, "storage": storage, "writer": writer,
            "db": rng.choice(["s", "s2"]), "scan_seed": rng.randrange(1 << 30)}


def act(w, a, history):
    rows = w.tables["t"]
    if a["act"] == "append":
        a["row"]["id"] = max(history["versions"], default=0) + 3
    if a["act"] in ("append", "insert"):
        if any(r["id"] == a["row"]["id"] for r in rows) or a["row"]["id"] in history["gone"]:
            return
        rows = rows + [dict(a["row"])]
        history["added"].add(a["row"]["id"])
        history["versions"].setdefault(a["row"]["id"], []).append(dict(a["row"]))
    elif rows:
        victim = rows[int(a["pick"] * len(rows))]
        if a["act"] == "delete":
            rows = [r for r in rows if r is not victim]
            history["gone"].add(victim["id"])
        else:
            new = dict(victim, v=a["v"])
            rows = [new if r is victim else r for r in rows]
            history["versions"][victim["id"]].append(new)
    w.tables["t"] = rows
    w.note("external", a=a["act"])
    w.reach.add("concurrent_" + a["act"])
    w.injected.append(("concurrent_" + a["act"], w.ops, "writer"))


def execute(plan):
    tables = {"t": plan["tables"]["t"]}
    old = []
    if plan["old"] and plan["mode"] == "UI":
        old = [{c: ("old" if c == "h" else -7) if c != "id" else r["id"] for c in plan["cols"]} for r in tables["t"][::2]] + [
            dict({c: "old" if c == "h" else -7 for c in plan["cols"]}, id=1)]
        tables["copy"] = old
    w = harness.world(plan, tables)
    e = harness.engine()
    harness.set_session(e, plan["session"])
    history = {"gone": set(), "added": set(), "versions": {r["id"]: [dict(r)] for r in tables["t"]}}
    pending = sorted(plan["writer"], key=lambda a: a["at"])
    base = w.ops

    def probe(at, op, table):
        while pending and at - base >= pending[0]["at"]:
            act(w, pending.pop(0), history)
    w.probe = probe
    q = {"from": {"name": "s.t", "alias": "a"}, "where": plan["where"], "select": [{"e": ["c", "a", c], "as": c} for c in plan["cols"]]}
    calc = plan.get("calc") or []
    q["select"] += [{"e": c, "as": "w"} for c in calc]

    def copied(row):
        return dict({c: row[c] for c in plan["cols"]}, **{"w": model.ev(c, model.Env({"a": row}), None) for c in calc})
    if plan["order"]:
        q["order"] = plan["order"]
    source = model.sql(q).replace("order by id", "order by a.id") if plan["ordered"] else model.sql(q)
    target = "`%s`.`copy<%s>`" % (plan["db"], plan["mode"]) if plan["mode"] else plan["db"] + ".copy"
    if plan["hop"]:
        q2 = {"from": {"name": "`hop`", "alias": "b"}, "where": [], "select": [{"e": ["c", "b", c], "as": c} for c in plan["cols"] + ["w"] * len(calc)]}
        text = "insert into `hop` %s; insert into %s %s" % (source, target, model.sql(q2).replace("from `hop` b", "from hop b"))
    else:
        text = "insert into %s %s" % (target, source)
    out = {"violations": [], "stats": {"copies": 1}}
    where = "session %s storage %s, %d rows, other client %s: %s" % (
        plan["session"], plan["storage"], len(tables["t"]), [(a["at"], a["act"]) for a in plan["writer"]], text)
    try:
        harness.run_sql(w, e, text)
    except Exception as ex:
        out["violations"].append(violation("copy_failed", "%s\n  raised %s" % (where, harness.err(ex))))
        return out
    w.probe = None
    got = w.tables.get("copy", [])
    harness.saw(w, got)
    ctx = model.context({})

    def selected(row):
        return all(model.truth(c, model.Env({"a": row}), ctx) for c in plan["where"])
    count = Counter(r.get("id") for r in got)
    problem = None
    old_rows = {r["id"]: r for r in old}
    for key, versions in sorted(history["versions"].items()):
        hit = selected(versions[0])
        n = count.pop(key, 0)
        if key in old_rows:
            if n != 1:
                problem = "key %s appears %d times in the target" % (key, n)
                break
        elif not hit and n:
            problem = "row %s does not meet the condition" % key
            break
        elif n > 1:
            problem = "row %s was copied %d times" % (key, n)
            break
        elif hit and n == 0 and key not in history["gone"] and key not in history["added"]:
            problem = "row %s, in the source from start to end, was not copied" % key
            break
        for r in got:
            if r.get("id") != key:
                continue
            allowed = [copied(v) for v in versions]
            if key in old_rows and not (hit and key not in history["gone"] and key not in history["added"]):
                allowed.append(old_rows[key])
            if r not in allowed:
                problem = "row %s, which the source never held (it held %s)" % (r, allowed)
    for key in old_rows:
        count.pop(key, None)
    if not problem and count:
        problem = "rows with keys %s were never in the source" % sorted(count, key=str)
    if problem:
        out["violations"].append(violation("not_exactly_once", "%s\n  %s" % (where, problem)))
    if plan["session"].get("batch") and plan["session"]["batch"] < len(tables["t"]):
        w.reach.add("several_pages")
    e.close()
    out["sample"] = {"sql": text, "session": plan["session"], "writer": [a["act"] for a in plan["writer"]]}
    return out


def shrink(plan):
    yield from harness.shrink_lists(plan, [("writer",), ("where",), ("calc",), ("tables", "t")])
    yield from harness.default_shrink(plan)
