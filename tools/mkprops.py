#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "/opt/venv/lib/python3.12/site-packages/syncany"
TECH = "deterministic simulation: seeded search over %s, judged against %s"

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note, level="exploration"):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quantifier},
               "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                                                  "observe_at": observe, "hook_needed": None}}, technique, note, level))


prop("C01", "Aggregates equal their definition over the whole input, in any batches",
     "Every aggregate (COUNT, COUNT DISTINCT, SUM, AVG, MIN, MAX, GROUP_CONCAT, GROUP_ARRAY, GROUP_UNIQ_ARRAY, BIT_AND/OR/XOR, JSON_ARRAYAGG, "
     "JSON_OBJECTAGG, user-defined ones) with any WHERE, GROUP BY and HAVING, and SELECT DISTINCT, returns exactly what its definition gives over the "
     "whole set of source rows. The result does not depend on @batch, on how the storage pages or orders its rows, or on running the statement again in "
     "the same session. NULLs are ignored by every aggregate except COUNT(*), and each group appears exactly once.",
     ["inputs", "configurations", "schedules"],
     "all table contents (NULLs, duplicates, empty), aggregate statements, batch sizes, paging styles, scan orders and repetitions",
     "The tests check a few fixed statements on fixed files with one batch size; partial aggregation over every split of every input is out of their reach.",
     ["syncanysql/calculaters/aggregate_calculater.py", "syncanysql/taskers/query.py", "syncanysql/compiler.py"],
     [("partial states, reduce and final value", "syncanysql/calculaters/aggregate_calculater.py"),
      ("reduce pass over batches", "syncanysql/taskers/query.py: ReduceHooker, run_reduce, compile_reduce_config"),
      ("distinct pre-pass", "syncanysql/taskers/query.py: compile_distinct_config")],
     ["rows written by INSERT INTO ... SELECT"],
     TECH % ("tables, statements, batch sizes and storage paging behaviour", "a relational reference model"),
     "Seeded exploration; every run compares the complete result with an independent evaluator. Trusts the model and the simulated storage.")

prop("C02", "ORDER BY, LIMIT, OFFSET and windows act on the whole result",
     "A SELECT with ORDER BY, LIMIT, OFFSET, DISTINCT, GROUP BY or a join returns rows that are sorted as asked over the whole result, and exactly the "
     "requested slice of it. Window functions (ROW_NUMBER, LAG, LEAD, FIRST/LAST/NTH_VALUE, NTILE and aggregates OVER a partition and order) see their "
     "whole partition in its declared order. None of this depends on @batch, the join lookup size, the storage's paging or its scan order.",
     ["inputs", "configurations", "schedules"],
     "all tables, orderings over several columns with NULLs, limits, offsets, window definitions, batch and join lookup sizes, paging styles",
     "Tests use limits and windows only on results that fit one batch; a slice taken per page or per joined row shows up only for particular sizes.",
     ["syncanysql/taskers/query.py", "syncanysql/compiler.py", "syncanysql/calculaters/window_calculater.py"],
     [("limit and order pipelines moved to a reduce pass", "syncanysql/taskers/query.py: start, run_reduce"),
      ("window evaluation", "syncanysql/calculaters/window_calculater.py")],
     ["rows written by INSERT INTO ... SELECT, to storage and to memory tables"],
     TECH % ("tables, orderings, slices, windows and page sizes", "a relational reference model"),
     "Seeded exploration against an independent evaluator. RANK family: values are pinned by tests, so only independence of the batch size is checked.")

prop("C03", "A join returns every matching combination once, in any batches",
     "LEFT, INNER, RIGHT and comma joins over two or three tables, also across databases and over sub-selects, return each combination of rows whose join "
     "conditions hold exactly once, unmatched outer rows once with NULLs, and nothing else, with WHERE applied after the join and ON conditions during it. "
     "Aggregates over a join count each combination once. The result does not depend on @batch, @join_batch or how the storage pages its rows.",
     ["inputs", "configurations", "schedules"],
     "all table contents, join kinds, join and filter conditions, batch and lookup sizes, paging styles",
     "Tests join fixed JSON files with default sizes; the lookup cache and the multi-row fan-out behave differently per batch boundary.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py"],
     [("join compilation to foreign-key lookups", "syncanysql/compiler.py: compile_join_*"),
      ("lookup batches", "%s/loaders" % CORE)],
     ["rows written by INSERT INTO ... SELECT"],
     TECH % ("tables, join shapes, batch and lookup sizes", "a relational reference model"),
     "Seeded exploration against an independent evaluator. Plain JOIN keeps unmatched left rows, as the tool documents.")

prop("C05", "Subqueries, WITH and UNION compose like the relations they denote",
     "A derived table, an IN or scalar subquery (also correlated), a WITH clause whose parts refer to each other, and a UNION of several SELECTs give exactly "
     "the rows obtained by evaluating each part as a relation of its own. Several such statements in one session do not see each other's intermediate rows, "
     "whatever they are named. The result does not depend on @batch or on how the storage pages its rows.",
     ["inputs", "programs", "configurations"],
     "all tables, nestings of derived tables, conditions, WITH parts and unions, sequences of statements reusing names, batch sizes",
     "Intermediate results live in shared temporary collections; whether they leak or are consumed too early depends on nesting, batch boundaries and the statements before.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py", "syncanysql/calculaters/query_tasker_calculater.py"],
     [("temporary collections with use counts", "syncanysql/taskers/query.py: QueryTaskerTemporaryMemoryManager"),
      ("dependent taskers", "syncanysql/taskers/query.py: start, run_tasker"),
      ("correlated subqueries", "syncanysql/calculaters/query_tasker_calculater.py")],
     ["rows written by INSERT INTO ... SELECT"],
     TECH % ("tables, nested statements and statement sequences", "a relational reference model"),
     "Seeded exploration against an independent evaluator. Statements of the recorded finding (correlated subquery with a small @join_batch) are generated without @join_batch.")

prop("C06", "Each write mode and DELETE leave exactly the rows they define",
     "After INSERT in mode I the target holds its old rows plus the new ones; in U only rows with existing keys are updated; in UI existing keys are updated and "
     "missing ones inserted; in UDI the rows the statement's key condition covers become exactly the new ones, keeping columns it does not write; in DI they are "
     "replaced. DELETE removes exactly the rows its condition selects. A statement that reads the table it writes reads it as it was before. Running a U, UI, UDI or DI write again changes nothing, and none of it depends on @batch, "
     "@insert_batch or the storage's paging.",
     ["histories", "inputs", "configurations"],
     "all target and source contents, histories of writes in every mode and deletes with a changing source, batch sizes, buffered and direct storages",
     "Tests write to empty files and memory tables; updates and deletes over existing rows, repeated and in batches, are never compared with their definition.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py", "syncanysql/taskers/delete.py"],
     [("write mode selection", "syncanysql/compiler.py: compile_insert_into, parse_output_type"),
      ("outputers", "%s/outputers" % CORE), ("delete", "syncanysql/taskers/delete.py")],
     ["contents of the target tables after each statement"],
     TECH % ("histories of writes and deletes", "a table state machine checked after every statement"),
     "Seeded exploration. The first selected column is the key; source rows have distinct keys.")

prop("C07", "A storage failure reaches the caller, with nothing stored that should not be",
     "When the storage fails during a script (an error before or after the operation took effect, a partial write, a full disk, an interrupt), the call raises instead "
     "of returning. Every statement before the failing one has had its full effect, no statement after it has had any, and the failing one has stored nothing "
     "but rows it was to write, at most once, and removed nothing but rows it was to replace. Delays and clock jumps of the storage host change nothing.",
     ["fault_sequences", "histories", "configurations"],
     "all scripts of writes, deletes and queries, all fault kinds at every storage operation, batch sizes, buffered and direct storages",
     "No test injects a storage failure; the number of operations at which one can strike grows with every batch and table of every script.",
     ["syncanysql/executor.py", "syncanysql/taskers/query.py", "syncanysql/taskers/delete.py", "syncanysql/__init__.py"],
     [("statement queue", "syncanysql/executor.py: execute"), ("exception propagation", "syncanysql/taskers/query.py: run_tasker"),
      ("temporary data clean-up", "syncanysql/taskers/query.py")],
     ["whether execute() raised", "contents of all tables afterwards"],
     TECH % ("scripts and fault positions", "the table state machine: the stored tables must be explained by one interrupted statement"),
     "Seeded exploration with one fault per run aimed at an operation of a fault-free execution.")

prop("C08", "After a failed script the same engine behaves like a fresh one",
     "When a script fails for any reason (a storage error, an interrupt, a syntax or compile error, an error of a user function), a later script in the same engine or "
     "context gives the same result as in a new engine with the same settings. No statement, intermediate row or buffered write of the failed script shows up later. "
     "An invalid script always raises.",
     ["fault_sequences", "histories", "programs"],
     "all alternations of failing and correct scripts in one engine, all kinds and positions of failure",
     "Tests never continue after a failure; what is left behind depends on where exactly the script stopped.",
     ["syncanysql/__init__.py", "syncanysql/executor.py", "syncanysql/taskers/query.py", "syncanysql/compiler.py"],
     [("queue clean-up after failures", "syncanysql/__init__.py: ExecuterContext.execute"),
      ("temporary collection clean-up", "syncanysql/taskers/query.py: run_tasker finally")],
     ["contents of all tables after each correct statement"],
     TECH % ("histories of failing and correct scripts", "the reference model and table state machine"),
     "Seeded exploration; correct statements are judged against the tables they started from.")

EXTRA = os.path.join(HERE, "tools", "mkprops_more.py")
NOT_APPLICABLE = []
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for doc, _, _, _ in P:
        assert len(doc["title"]) <= 80, doc["title"]
        fp.write(json.dumps(doc, ensure_ascii=False) + "\n")
built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "dst", "props")) if f.startswith("c") and f.endswith(".py")}
skip = {n["property"] for n in NOT_APPLICABLE}
manifest = {
    "version": 1, "setup_cmd": "./setup.sh",
    "notes": "No hooks in /repo: every seam is a public interface of the code or a process-level one (registered storage driver, LD_PRELOAD clock, "
             "interpreter hash seed, sleep/uuid/file primitives patched inside the simulator process).",
    "checks": [{"property": d["id"], "quick_cmd": "python3 check.py --property %s --tier quick" % d["id"],
                "thorough_cmd": "python3 check.py --property %s --tier thorough" % d["id"], "technique": t, "level": lv, "level_note": n}
               for d, t, n, lv in P if d["id"] in built and d["id"] not in skip],
    "not_applicable": NOT_APPLICABLE + [{"property": d["id"], "reason": "the check for it is not built yet"}
                                        for d, _, _, _ in P if d["id"] not in built and d["id"] not in skip],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(manifest, fp, indent=1, ensure_ascii=False)
    fp.write("\n")
