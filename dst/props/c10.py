"""C10: what a finished statement stored survives a crash, and running an interrupted script again completes it."""
from .. import harness, hist, kernel
from ..harness import violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("a history of scripts; the process dies before or after a random storage operation (losing what it buffered) or the storage fails, then a new process "
        "runs the interrupted statement and the rest again, possibly dying again; stored tables are judged at every crash and at the end")
REAL = ["syncanysql parser, compiler, executor, query/delete/union taskers", "syncany core tasker, loaders, outputers"]
STUB = ["storage server (simulated driver, two databases)", "process death (the whole interpreter state is abandoned)", "wall clock", "unique ids"]
ASSUMPTIONS = ["only what the storage acknowledged at flush or close is durable",
               "a statement is run again as a whole; U, UI, UDI, DI and DELETE statements are the ones that may be run again"]


def generate(rng, index, tier):
    tables = hist.start_tables(rng)
    steps = hist.steps(rng, tables, rng.choice([1, 2, 3, 4, 5]), 0.25, ["U", "UI", "UI", "UDI", "DI"], False)
    session = harness.pick_session(rng, len(tables["t"]))
    aims = [{"kind": rng.choice(["crash", "crash", "crash_after", "crash_after", "error", "lost_ack", "torn"]), "after": rng.randint(1, rng.choice([3, 8, 30])),
             "keep": rng.choice([0, 1, 2])} for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"tables": tables, "steps": steps, "session": session, "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30),
            "aims": aims, "one_script": rng.random() < 0.3, "between": rng.random() < 0.3}


def execute(plan):
    out = {"violations": [], "stats": {}}
    w = harness.world(plan)
    state = hist.clone(plan["tables"])
    todo, aims, log, kept = list(plan["steps"]), list(plan["aims"]), [], []
    where = "session %s storage %s" % (plan["session"], plan["storage"])
    while todo:
        e = harness.engine()
        kept.append(e)                               # a dead process cleans nothing up
        harness.set_session(e, plan["session"])
        if aims:
            a = aims.pop(0)
            at = w.ops + a["after"]
            w.faults = {at: dict(a, at=at)}
            log.append("[%s at operation +%d]" % (a["kind"], a["after"]))
        stopped = None
        if plan["one_script"]:
            # a mark after each statement tells which of them have finished
            text = "; ".join("%s; select sim_hook(%d) as m into @mark" % (hist.sql(s), j + 1) for j, s in enumerate(todo))
            finished = [0]
            w.user_call = finished.append
            log.append(text)
            try:
                harness.run_sql(w, e, text)
            except (kernel.SimCrash, Exception) as ex:
                done, before = finished[-1], state
                for s in todo[:done]:
                    before = hist.apply(s, before)
                problem, _ = hist.check_stopped(todo[done:done + 1], before, w.tables) if done < len(todo) else ("failed after the last statement", None)
                if problem:
                    out["violations"].append(violation("wrong_effects", "%s: %s\n  stopped by %s after %d statements had finished, then the stored tables are not explained: %s" % (
                        where, "\n    ;; ".join(log), harness.err(ex), done, problem)))
                    return out
                # what is left of a script is not run again here
                state = hist.clone(w.tables)
            else:
                for s in todo:
                    state = hist.apply(s, state)
            todo = []
        else:
            while todo:
                text = hist.sql(todo[0])
                before = hist.clone(w.tables)
                log.append(text)
                try:
                    harness.run_sql(w, e, text)
                except (kernel.SimCrash, Exception) as ex:
                    stopped = ex
                    problem, _ = hist.check_stopped(todo[:1], before, w.tables)
                    if problem:
                        out["violations"].append(violation("wrong_effects", "%s: %s\n  stopped by %s, then the stored tables are not explained: %s" % (
                            where, "\n    ;; ".join(log), harness.err(ex), problem)))
                        return out
                    break
                state = hist.apply(todo.pop(0), state)
                for t in sorted(set(w.tables) | set(state)):
                    bad = hist.same(w.tables.get(t, []), state.get(t, []))
                    if bad:
                        out["violations"].append(violation("not_durable", "%s: %s\n  returned, but table %s: %s" % (where, "\n    ;; ".join(log), t, bad)))
                        return out
                if plan["between"] and aims:
                    # the process dies between two statements: nothing may be lost
                    w.injected.append(("crash_between", w.ops, "idle"))
                    w.reach.add("crash_between_statements")
                    log.append("[crash]")
                    stopped = True
                    break
        if stopped is None:
            break
        if not w.injected:
            out["violations"].append(violation("statement_failed", "%s: %s\n  raised %s without a fault" % (where, "\n    ;; ".join(log), harness.err(stopped))))
            return out
        w.restart()
        log.append("[restart]")
        w.reach.add("restart")
    harness.saw(w, w.tables)
    problem = None
    for t in sorted(set(w.tables) | set(state)):
        bad = hist.same(w.tables.get(t, []), state.get(t, []))
        problem = problem or (bad and "table %s: %s" % (t, bad))
    if problem:
        out["violations"].append(violation("not_converged", "%s: %s\n  after the last run %s" % (where, "\n    ;; ".join(log), problem)))
    out["nontrivial"] = bool(w.injected)
    out["stats"] = {"restarts": w.epoch, "statements": len(plan["steps"])}
    out["sample"] = {"log": log[-6:]}
    w.faults = {}
    for e in kept[-1:]:
        e.close()
    kept_alive.extend(kept)
    return out


kept_alive = []
