"""Directed runs that pin down one recorded defect each (see known_findings.json).

A probe executes a fixed session and compares its outcome with the correct one.
While the defect is there it reports the violation kind "known:<id>", which the
findings file lists; once the defect is gone it reports nothing.
"""
from . import harness

T = {"t": [{"id": i, "h": "abc"[i % 3], "k": i % 4} for i in range(1, 7)],
     "u": [{"uid": i, "k": i % 4, "w": i} for i in range(1, 5)]}

KEYSET = {"hold": "op", "buffered": False, "cursor": "keyset", "shuffle": False, "latency_ms": 0}

PROBES = {
    "C02": [
        {"probe": "keyset-order-not-unique", "session": {"batch": 2}, "storage": KEYSET, "tables": {"t": [{"id": i, "k": i % 3} for i in range(1, 10)]},
         "sql": ["insert into s.o1 select a.k as k, a.id as id from s.t a order by a.k"],
         "want": {"o1": [{"k": i % 3, "id": i} for i in range(1, 10)]}},
    ],
    "C05": [
        {"probe": "correlated-aggregate-other-conditions", "tables": T, "sql": [
            "insert into s.o1 select a.id as id, (select sum(b.w) from s.u b where b.w<=a.id) as x from s.t a where a.id in (1,2,3)"],
         "want": {"o1": [{"id": 1, "x": 1}, {"id": 2, "x": 3}, {"id": 3, "x": 6}]}},
        {"probe": "correlated-aggregate-other-conditions", "tables": dict(T, u=[{"uid": i, "k": 1, "w": i} for i in range(1, 5)]), "sql": [
            "insert into s.o1 select a.id as id, (select count(*) from s.u b where b.k=a.k and b.w>a.id) as x from s.t a where a.id=1"],
         "want": {"o1": [{"id": 1, "x": 3}]}},
    ],
    "C15": [
        {"probe": "set-runs-at-compile-time", "tables": T, "sql": [
            "set @a=1; insert into s.o1 select id, @a as x from s.t where id=1; set @a=2; insert into s.o2 select id, @a as x from s.t where id=1"],
         "want": {"o1": [{"id": 1, "x": 1}], "o2": [{"id": 1, "x": 2}]}},
        {"probe": "set-global-expression", "tables": T, "context": True, "sql": [
            "set @w=1", "set global @g=@w+1"], "engine_sql": ["insert into s.o1 select id, @g as x from s.t where id=1"],
         "want": {"o1": [{"id": 1, "x": 2}]}},
    ],
    "C24": [
        {"probe": "join-on-nested-key-of-memory-table", "tables": {"d": [{"id": i, "o": {"x": i + 2}} for i in (1, 2, 3)], "u": [{"uid": 4}]}, "sql": [
            "insert into docs select d.id, d.o from s.d d; insert into s.o1 select b.uid as id, a.id as x from s.u b left join docs a on a.`o.x` = b.uid"],
         "want": {"o1": [{"id": 4, "x": 2}]}},
    ],
}


def for_prop(prop):
    return PROBES.get(prop, [])


def execute(plan):
    w = harness.world(plan)
    e = harness.engine()
    problem = None
    try:
        harness.set_session(e, plan.get("session"))
        target = e.context() if plan.get("context") else e
        for text in plan["sql"]:
            harness.run_sql(w, target, text)
        for text in plan.get("engine_sql", ()):
            harness.run_sql(w, e, text)
        for table, rows in plan["want"].items():
            got = w.tables.get(table, [])
            if sorted(map(repr, got)) != sorted(map(repr, rows)):
                problem = "%s holds %r, should hold %r" % (table, got, rows)
    except Exception as ex:
        problem = "raised " + harness.err(ex)
    out = {"violations": [], "stats": {"probes": 1}}
    if problem:
        out["violations"].append(harness.violation("known:" + plan["probe"], "%s: %s" % (plan["sql"], problem)))
    return out
