"""C12: contexts that run at the same time on several threads do what each does alone."""
import copy
import gc
import os
import threading

from .. import harness, hist, model, sched
from ..harness import violation
from . import c09

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("two or three threads, each with a context (or the engine) of its own, run generated scripts under a seeded scheduler that may switch threads before every storage "
        "operation and every source line of syncanysql; tables, variables, operations and outcome of each thread are compared with the run in which the threads follow one another")
REAL = ["syncanysql parser, compiler, executor, all taskers, contexts, thread-local state", "syncany core, connection pool, memory database"]
STUB = ["thread scheduler (seeded, one thread at a time)", "storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["threads change at source lines of syncanysql, storage operations and sleeps; the syncany package runs atomically in between",
               "each thread uses a context of its own and target tables of its own, all read the same sources"]
ROOT = os.path.join(os.environ.get("DST_REPO", "/repo"), "syncanysql")


def script(rng, tables, name, n, own_vars):
    parts, suffix = [], "_" + name.lower() if own_vars else ""
    for step in hist.any_steps(rng, tables, rng.choice([1, 1, 2, 3]), 0.7, "r%d_" % n, False):
        parts.append({"step": step})
    if rng.random() < 0.5:
        v = rng.choice(["va", "vb"]) + suffix
        x = rng.choice([1, 2, 5, "w"])
        parts.insert(0, {"sql": "set @%s=%s" % (v, repr(x))})
        parts.append({"sql": "insert into s.var%d%s select a.id as id, @%s as x, ${@%s} as y from s.t a" % (n, name, v, v) if x != "w"
                      else "insert into s.var%d%s select a.id as id, @%s as x from s.t a" % (n, name, v)})
    if rng.random() < 0.5:
        v = rng.choice(["vc", "vd"]) + suffix
        parts.append({"sql": "select max(a.id) as m into @%s from s.t a where a.id<=%d" % (v, rng.choice([2, 4, 9]))})
        parts.append({"sql": "insert into s.into%d%s select a.id as id, @%s as x from s.t a" % (n, name, v)})
    if rng.random() < 0.3:
        parts.append({"sql": "insert into mem%d%s select a.id as id, a.k as k from s.t a where a.id<=%d" % (n, name, rng.choice([3, 9]))})
        parts.append({"sql": "insert into s.copy%d%s select m.id as id, m.k+1 as k from mem%d%s m" % (n, name, n, name)})
    if rng.random() < 0.4:
        parts.append({"sql": "insert into s.cor%d%s select a.id as id, (select %s as n from s.u b where b.k=a.k%s) as n from s.t a" % (
            n, name, rng.choice(["count(*)", "max(b.w)", "sum(b.uid)"]), rng.choice(["", " and b.w>1"]))})
    if rng.random() < 0.12:
        parts.append({"sql": "insert into s.boom%d%s select a.id as id, sim_boom(a.k, %d) as x from s.t a" % (n, name, rng.choice([0, 1, 2]))})
    if rng.random() < 0.12:
        parts.append({"sql": "insert into s.stop%d%s select a.id as id, sim_hook(a.k, %d) as x from s.t a" % (n, name, rng.choice([0, 1, 2]))})
        parts.append({"sql": "insert into s.after%d%s select a.id as id from s.t a" % (n, name)})
    if rng.random() < 0.06:
        parts.append({"sql": "select from where"})
    return parts


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    names = ["A", "B", "C"][:rng.choice([2, 2, 2, 3])]
    threads, engine = {}, rng.random() < 0.12        # the engine's own variables are meant to be seen by its contexts
    for name in names:
        session = harness.pick_session(rng, len(tables["t"]), 0.7)
        if engine:
            session = {}
        threads[name] = {"session": session, "scripts": [script(rng, tables, name, n, engine) for n in range(rng.choice([1, 1, 2, 3]))],
                         "how": "engine" if name == "A" and engine else rng.choice(["context", "context", "with", "fresh"])}
    storage = dict(harness.pick_storage(rng), shuffle=False, latency_ms=0)
    faults = [{"thread": rng.choice(names), "at": rng.choice([1, 2, 3, 5, 8, 12]), "kind": rng.choice(["error", "lost_ack", "interrupt", "stall"])}
              for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"tables": tables, "threads": threads, "session": {}, "storage": storage, "thread_faults": faults, "schedule_seed": rng.randrange(1 << 30),
            "rate": rng.choice([0.002, 0.01, 0.03, 0.1, 0.3]), "lines": rng.random() < 0.85}


def own(step, name):
    step = copy.deepcopy(step)
    step["target"] += name
    return step


def run_all(plan, rate, switches):
    """One complete run; rate 0 lets the threads run one after the other."""
    tables = {k: v for k, v in plan["tables"].items() if k not in ("out", "out2", "log")}
    for name in plan["threads"]:
        for t in ("out", "out2", "log"):
            tables[t + name] = plan["tables"][t]
    w = harness.world(plan, tables)
    from .. import kernel
    kernel.reset_run_seams(plan)
    e = harness.engine()
    e.get_database("--")
    outcome = {}

    def stop(value, when):
        if value == when:
            w.reach.add("terminal")
            local.target.terminal()         # a script stops itself, not what another thread runs
        return value
    local = threading.local()
    w.user_call = stop

    def body(name, th):
        def run():
            base = e if th["how"] == "engine" else e.context()

            def execute(text):
                target = base
                if th["how"] == "fresh":
                    target = e.context()
                local.target = target
                if th["how"] == "with":
                    local.target = e        # finds the context that the thread is in
                    with base as c:
                        c.execute(text)
                    return
                target.execute(text)
            set_text = "; ".join("set @%s=%s" % kv for kv in sorted(th["session"].items()))
            log = outcome[name] = []
            if set_text:
                execute(set_text)
            for parts in th["scripts"]:
                text = "; ".join(p["sql"] if "sql" in p else hist.sql(own(p["step"], name)) for p in parts)
                try:
                    execute(text)
                    log.append([text, "returned"])
                except KeyboardInterrupt:
                    log.append([text, "interrupted"])
                except Exception as ex:
                    log.append([text, "raised " + harness.err(ex)])
            log.append(["variables", [repr(base.get_variable(v)) for v in ("va", "vb", "vc", "vd", "va_" + name.lower(), "vc_" + name.lower(), "batch", "insert_batch")]])
        return run
    s = sched.Scheduler(w, plan["schedule_seed"], rate, switches, ROOT,
                        bool(plan.get("lines", True) and (rate or switches is not None)))
    errors = s.run({n: body(n, th) for n, th in plan["threads"].items()})
    for n, ex in errors.items():
        if ex is not None:
            outcome.setdefault(n, []).append(["thread", "died of " + harness.err(ex)])
    ops = {n: [(ev["op"], ev["t"], ev.get("rows"), ev.get("got")) for ev in w.trace if ev["k"] == "op" and ev.get("by") == n] for n in plan["threads"]}
    problem = None
    if c09.held(w):
        problem = "connections %s were not given back" % c09.held(w)
    elif c09.leftovers(e):
        problem = "intermediate tables %s are still there" % c09.leftovers(e)
    else:
        for ev in w.trace:
            if ev["k"] in ("use_after_close", "shared_connection"):
                problem = "a connection was used after it was closed or by two threads at once: %s" % ev
    memory = {n: [dict(r) for r in rows] for n, rows in e.get_database("--").memory_databases.items() if not n.startswith("--.__")}
    e.close()
    return w, s, {"tables": w.tables, "memory": memory, "outcome": outcome, "ops": ops}, problem


def plain(x):
    import json
    import re
    text = json.dumps(x, sort_keys=True, default=repr)
    return re.sub(r"\(op [0-9]+\)", "(op)", re.sub(r"_[0-9]{12,}", "_N", text))


def execute(plan):
    out = {"violations": [], "stats": {}}
    gc.disable()
    w0, s0, alone, problem0 = run_all(plan, 0, None)
    w, s, got, problem = run_all(plan, plan["rate"], plan.get("switches"))
    plan["switches"] = {str(k): v for k, v in s.taken.items()}
    if not problem and not problem0:
        for part in ("outcome", "tables", "memory", "ops"):
            for key in sorted(set(alone[part]) | set(got[part])):
                a, b = plain(alone[part].get(key)), plain(got[part].get(key))
                if a != b:
                    problem = "%s of %s: alone %s, together %s" % (part, key, a[-600:], b[-600:])
                    break
            if problem:
                break
    if problem or problem0:
        lines = []
        for n, th in plan["threads"].items():
            lines.append("%s (%s) %s: %s" % (n, th["how"], th["session"], " ;; ".join(t[0] for t in alone["outcome"].get(n, []))[:900]))
        out["violations"].append(violation("threads_interfere", "%d switches\n  %s\n  %s" % (s.switches, "\n  ".join(lines), problem or "one after the other: " + problem0)))
    out["stats"] = {"switches": s.switches, "points": s.step}
    if s.switches:
        w.reach.add("switched")
    for ev in w.trace:
        if ev["k"] == "switch":
            w.reach.add("switch_on_" + ev["on"])
    out["nontrivial"] = s.switches > 0
    out["sample"] = {"switches": s.switches, "points": s.step}
    out["digest"] = w.digest()
    return out


def shrink(plan):
    if plan.get("switches"):
        items = sorted(plan["switches"].items(), key=lambda kv: int(kv[0]))
        n, size = len(items), len(items)
        while size >= 1:
            for at in range(0, n, size):
                p = copy.deepcopy(plan)
                p["switches"] = dict(items[:at] + items[at + size:])
                yield p
            size //= 2
    for n in list(plan["threads"]):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            p["threads"].pop(n)
            yield p
        yield from harness.shrink_lists(plan, [("threads", n, "scripts")])
        for i in range(len(plan["threads"][n]["scripts"])):
            yield from harness.shrink_lists(plan, [("threads", n, "scripts", i)])
    yield from harness.shrink_lists(plan, [("thread_faults",)] + [("tables", t) for t in plan["tables"]])
    yield from harness.default_shrink(plan)
