"""Common ground for the property modules: engine set-up, sessions, observation."""
import copy
import hashlib
import json
import logging
import os
import random

from . import kernel
from .kernel import SimCrash, StorageError, World  # noqa: F401  (re-exported)

_loaded = {}


def preload():
    """Import the code under test (its public surface only) and register the simulated drivers."""
    if _loaded:
        return _loaded["sql"]
    import syncanysql
    from . import simdb
    syncanysql.register_database("simdb", simdb.SimDB)

    class Spread(syncanysql.StateAggregateCalculater):
        """A user aggregate: max - min, kept as a partial state and finished at the end."""

        def aggregate(self, state_value, data_value):
            if data_value is None:
                return state_value
            if state_value is None:
                return [data_value, data_value]
            return [min(state_value[0], data_value), max(state_value[1], data_value)]

        def reduce(self, state_value, data_value):
            if data_value is None:
                return state_value
            if state_value is None:
                return data_value
            return [min(state_value[0], data_value[0]), max(state_value[1], data_value[1])]

        def final_value(self, state_value):
            return None if state_value is None else state_value[1] - state_value[0]

    syncanysql.register_calculater("sim_spread", Spread)

    class Boom(syncanysql.Calculater):
        """A user function that fails on one value."""

        def calculate(self, value, bad):
            if value == bad:
                raise ValueError("sim_boom(%r)" % (value,))
            return value

    syncanysql.register_calculater("sim_boom", Boom)

    class Hook(syncanysql.Calculater):
        """A user function that calls back into the simulation."""

        def calculate(self, *args):
            return World.current.user_call(*args)

    syncanysql.register_calculater("sim_hook", Hook)
    logging.disable(logging.CRITICAL)
    _loaded["sql"] = syncanysql
    return syncanysql


CONFIG = {"databases": [{"name": "s", "driver": "simdb"}, {"name": "s2", "driver": "simdb"}]}


def engine(config=None):
    sql = preload()
    e = sql.ScriptEngine(copy.deepcopy(config or CONFIG))
    e.setup()
    return e


def world(plan, tables=None):
    preload()
    w = World(plan)
    w.tables = {}
    for name, rows in (tables if tables is not None else plan.get("tables", {})).items():
        w.tables[name] = [dict(r) for r in rows]
    return w


def set_session(e, session):
    """session: {"batch":2,...} -> SET statements, executed before the statement under test."""
    if session:
        e.execute("; ".join("set @%s=%s" % (k, v) for k, v in sorted(session.items())))


def run_sql(w, e, text):
    """Execute one script; the text and the outcome become part of the run's event trace."""
    w.note("sql", q=text)
    try:
        e.execute(text)
    except Exception as ex:
        w.note("raised", e=type(ex).__name__)
        raise
    w.note("done")


def saw(w, rows):
    """Put observed rows into the event trace."""
    w.note("rows", h=hashlib.sha256(json.dumps(rows, sort_keys=True, default=repr).encode()).hexdigest()[:12], n=len(rows))


def violation(kind, detail):
    return {"kind": kind, "detail": str(detail)[:3000]}


def err(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def pick_storage(rng, faults=False):
    """Swarm: each run draws its own storage personality."""
    return {"hold": rng.choice(["op", "op", "close"]), "buffered": rng.choice([False] * 6 + [True, True, "close"]),
            "cursor": rng.choice(["offset", "keyset"]), "shuffle": rng.random() < 0.5,
            "latency_ms": rng.choice([0, 0, 5, 400])}


def pick_batch(rng, n):
    return rng.choice([1, 1, 2, 2, 3, 4, 5, max(1, n - 1), max(1, n), n + 1, max(1, n // 2), 50])


def pick_session(rng, n, batch_p=0.75):
    session = {}
    if rng.random() < batch_p:
        session["batch"] = pick_batch(rng, n)
    if rng.random() < 0.5:
        session["join_batch"] = rng.choice([1, 2, 3, 5, 100])
    if rng.random() < 0.3:
        session["insert_batch"] = rng.choice([1, 2, 3, 5])
    return session


FAULT_KINDS = ["error", "error", "error", "lost_ack", "torn", "full", "interrupt"]


def dry_ops(plan, script):
    """How many storage operations the script takes without faults (and the kind of each)."""
    clean = dict(plan, faults=[])
    w = world(clean)
    kernel.reset_run_seams(clean)
    e = engine()
    try:
        set_session(e, plan.get("session"))
        script(w, e)
    finally:
        e.close()
    return [ev["op"] for ev in w.trace if ev["k"] == "op"]


def place_faults(plan, ops):
    """Turn the relative positions of plan["where"] into operation ordinals, once; the plan then carries them."""
    plan["faults"] = []
    for f in plan.get("aim", []):
        if not ops:
            break
        wanted = [i + 1 for i, op in enumerate(ops) if f.get("on") in (None, op)] or list(range(1, len(ops) + 1))
        at = wanted[min(len(wanted) - 1, int(f["frac"] * len(wanted)))]
        if not any(x["at"] == at for x in plan["faults"]):
            plan["faults"].append({k: v for k, v in f.items() if k not in ("frac", "on")} | {"at": at})
    kernel.reset_run_seams(plan)


def aim(rng, kinds=None, writes=0.5):
    kind = rng.choice(kinds or FAULT_KINDS)
    f = {"kind": kind, "frac": round(rng.random(), 3)}
    if kind in ("torn", "full"):
        f.update(on="insert", keep=rng.choice([0, 1, 2, 3]))
    elif rng.random() < writes:
        f["on"] = rng.choice(["insert", "update", "delete", "flush", "query"])
    if kind == "stall":
        f["seconds"] = rng.choice([1, 60, 86400])
    if kind == "clock":
        f["seconds"] = rng.choice([-86400, -1, 3600, 10 ** 8])
    return f


# ------------------------------------------------------------------ shrinking
def lists_of(plan, paths):
    for path in paths:
        node = plan
        try:
            for p in path:
                node = node[p]
        except (KeyError, IndexError, TypeError):
            continue
        if isinstance(node, list):
            yield path, node


def without(plan, path, keep):
    new = copy.deepcopy(plan)
    node = new
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = keep
    return new


def shrink_lists(plan, paths, floor=0):
    """Candidates with chunks of the given lists removed, biggest chunks first."""
    for path, items in lists_of(plan, paths):
        n, size = len(items), len(items)
        while size >= 1:
            for at in range(0, n, size):
                keep = items[:at] + items[at + size:]
                if len(keep) >= floor and len(keep) < n:
                    yield without(plan, path, copy.deepcopy(keep))
            size //= 2


def shrink_query(q):
    """Structurally smaller queries."""
    for key in ("where", "having", "joins", "ctes", "union"):
        if q.get(key):
            for i in range(len(q[key])):
                if key == "union" and len(q[key]) < 2:
                    continue
                n = copy.deepcopy(q)
                del n[key][i]
                yield n
    for key in ("limit", "offset", "distinct"):
        if q.get(key):
            n = copy.deepcopy(q)
            n.pop(key)
            yield n
    if len(q.get("select", ())) > 1:
        order = {o[0] for o in q.get("order") or ()}
        for i, s in enumerate(q["select"]):
            if s["as"] in order:
                continue
            n = copy.deepcopy(q)
            del n["select"][i]
            yield n
    if q.get("order") and not q.get("limit"):
        n = copy.deepcopy(q)
        n.pop("order")
        yield n
    for i, u in enumerate(q.get("union") or ()):
        for c in shrink_query(u):
            n = copy.deepcopy(q)
            n["union"][i] = c
            yield n
    src = q.get("from") or {}
    if "sub" in src:
        for c in shrink_query(src["sub"]):
            n = copy.deepcopy(q)
            n["from"]["sub"] = c
            yield n
    for i, s in enumerate(q.get("select", ())):
        if s["e"][0] == "sub":
            for c in shrink_query(s["e"][1]):
                n = copy.deepcopy(q)
                n["select"][i]["e"] = ["sub", c]
                yield n
    for i, c in enumerate(q.get("ctes") or ()):
        for k in shrink_query(c["query"]):
            n = copy.deepcopy(q)
            n["ctes"][i]["query"] = k
            yield n


def default_shrink(plan):
    tables = [("tables", t) for t in plan.get("tables", {})]
    for c in shrink_lists(plan, [("faults",), ("steps",), ("statements",), ("schedule",)]):
        yield c
    for c in shrink_lists(plan, tables):
        yield c
    if plan.get("query"):
        for q in shrink_query(plan["query"]):
            n = copy.deepcopy(plan)
            n["query"] = q
            yield n
    for key in list(plan.get("session", {})):
        n = copy.deepcopy(plan)
        n["session"].pop(key)
        yield n
    plain = {"hold": "op", "buffered": False, "cursor": "offset", "shuffle": False, "latency_ms": 0}
    for key, value in plan.get("storage", {}).items():
        if key in plain and value != plain[key]:
            n = copy.deepcopy(plan)
            n["storage"][key] = plain[key]
            yield n
