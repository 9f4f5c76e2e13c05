"""C22: what a statement shows is its result: every row once, columns and rows in order, in the format of the place it is shown."""
import copy
import csv
import datetime
import errno
import io
import json

from .. import gen, harness, model
from ..harness import violation
from . import c05

RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("a session of scripts of selects shown on standard output or error as json lines, csv or text, through every name such a place has, between marking statements; "
        "storage errors and write errors of the output; what was written is parsed and judged against the reference model")
REAL = ["syncanysql parser, compiler, executor, query/multi/intermediate taskers", "syncany core and its textline driver"]
STUB = ["file descriptors 1 and 2 (in memory, below the textline driver)", "storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["csv repeats its header for every page written", "the rich package is not used for tables"]

# name written after INSERT INTO -> (descriptor, format); None: a plain select
PLACES = {None: (1, "-"), "_": (1, "-"), ".": (1, "-"), ".json": (1, "json"), ".csv": (1, "csv"), "-`.`&1": (1, "-"), "-`.`&2": (2, "-"),
          "j`.`&1": (1, "json"), "j`.`&2": (2, "json"), "c`.`&1": (1, "csv"), "c`.`&2": (2, "csv"), "x`.`&1": (1, "txt")}
DATES = {"datetime_format": ["%Y-%m-%d %H:%M:%S", "%d.%m.%Y %H:%M", "%Y%m%dT%H%M%S"], "date_format": ["%Y-%m-%d", "%d/%m/%y"], "time_format": ["%H:%M:%S", "%H.%M"]}


class Shown(object):
    """Everything written, in order: [descriptor, text]."""

    def __init__(self, w, fault):
        self.w, self.chunks, self.fault, self.writes, self.fired = w, [], fault, 0, []

    def open(self, file, mode="r", *args, **kwargs):
        if not isinstance(file, int):
            return open(file, mode, *args, **kwargs)
        if mode == "r":
            return io.StringIO("", newline="")
        return Stream(self, file)


class Stream(io.StringIO):
    def __init__(self, shown, fd):
        super(Stream, self).__init__(newline="")
        self.shown, self.fd = shown, fd

    def flush(self):
        text = self.getvalue()
        self.seek(0)
        self.truncate()
        if not text:
            return
        s = self.shown
        s.writes += 1
        if s.fault and s.writes == s.fault["at"]:
            s.fired.append(s.fault["kind"])
            cut = text[:int(len(text) * s.fault["frac"])]
            if cut:
                s.chunks.append([self.fd, cut])
            raise OSError(errno.ENOSPC if s.fault["kind"] == "full" else errno.EPIPE, "simulated output error")
        s.w.note("shown", fd=self.fd, t=text[:200])
        s.chunks.append([self.fd, text])


def shown_query(rng):
    roll = rng.random()
    if roll < 0.3:
        q = gen.plain_query(rng)
        if rng.random() < 0.5:
            gen.order_limit(rng, q, "p", [s["as"] for s in q["select"][1:]])
    elif roll < 0.5:
        q = gen.aggregate_query(rng)
    elif roll < 0.6:
        q = gen.distinct_query(rng)
    elif roll < 0.7:
        q = gen.plain_query(rng)
        q["select"].insert(rng.randrange(1, len(q["select"]) + 1), {"e": gen.window_expr(rng), "as": "rn"})
    else:
        return c05.statement(rng)
    if rng.random() < 0.3:
        rng.shuffle(q["select"])
    return q


def date_rows(rng):
    t0 = datetime.datetime(2024, 1, 31, 13, 5, 9)
    return [{"id": i, "d": (t0 + datetime.timedelta(days=rng.randrange(400), seconds=rng.randrange(86400))).strftime("%Y-%m-%d %H:%M:%S") if rng.random() < 0.85 else None}
            for i in range(1, rng.choice([2, 3, 5]))]


def generate(rng, index, tier):
    tables = gen.tables(rng, ("t", "u"))
    default = rng.choice(["json", "json", "csv"])
    scripts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        statements = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.12:
                statements.append({"dates": rng.choice(["a.d", "date(a.d)", "time(a.d)"]), "place": rng.choice([".json", ".csv", None])})
                continue
            statements.append({"query": shown_query(rng), "place": rng.choice([None, None, None] + sorted(p for p in PLACES if p))})
        scripts.append(statements)
    for s in [x for y in scripts for x in y]:
        if s["place"] == "x`.`&1" and ("query" not in s or len(c05.fields(s["query"])) < 1):
            s["place"] = ".json"
    roll = rng.random()
    fault = {"kind": rng.choice(["full", "pipe"]), "at": rng.randint(1, 8), "frac": rng.choice([0, 0.5, 0.9])} if roll < 0.2 else None
    n = len(tables["t"])
    plan = {"tables": tables, "dates": date_rows(rng), "scripts": scripts, "default": default, "formats": {k: rng.choice(v) for k, v in DATES.items() if rng.random() < 0.5},
            "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30), "output_fault": fault}
    if fault is None and rng.random() < 0.2:
        plan["faults"] = [{"at": rng.randint(1, 14), "kind": "error_before"}]
    return plan


def sql(s):
    place = s["place"]
    text = model.sql(s["query"]) if "query" in s else "select a.id as id, %s as d from s.dates a" % s["dates"]
    return text if place is None else "insert into `%s` %s" % (place, text)


def parse(text, form, names):
    """(rows, header) of one statement's output, or a string that says why it is none."""
    rows = []
    if form == "json":
        for line in text.split("\n"):
            if line:
                row = json.loads(line)
                if list(row) != names:
                    return "columns %s instead of %s" % (list(row), names)
                rows.append(row)
    elif form == "csv":
        for cells in csv.reader(io.StringIO(text, newline=""), quoting=csv.QUOTE_NONNUMERIC):
            if cells == names:
                continue
            if len(cells) != len(names):
                return "a line of %d cells for the columns %s: %s" % (len(cells), names, cells)
            rows.append({n: None if c == "" else c for n, c in zip(names, cells)})
        if text and not text.startswith(",".join('"%s"' % n for n in names)):
            return "header %r instead of %s" % (text.split("\n")[0], names)
    else:
        for line in text.split("\n"):
            if line:
                cells = words(line)
                if len(cells) != len(names):
                    return "a line of %d cells for the columns %s: %s" % (len(cells), names, line)
                rows.append({n: value(c) for n, c in zip(names, cells)})
    return rows


def words(line):
    """The cells of a text line: divided by blanks, in quotes when they hold one."""
    out, i = [], 0
    while i < len(line):
        if line[i] == "'" and line.find("'", i + 1) >= 0:
            j = line.index("'", i + 1)
            out.append(line[i + 1:j])
            i = j + 2
        else:
            j = line.find(" ", i)
            j = len(line) if j < 0 else j
            out.append(line[i:j])
            i = j + 1
    return out


def value(c):
    if c == "None":
        return None
    for kind in (int, float):
        try:
            return kind(c)
        except ValueError:
            pass
    return c


def texts(q, source):
    """Whether every value of the result is written in a text line so that it is read back: numbers, NULL and plain words."""
    return all(v is None or isinstance(v, (int, float, str)) and " " not in str(v) for r in model.full_rows(q, model.context(source)) for v in r.values())


def judge(s, source, plan, text, form, partial):
    """The problem of what a statement showed; partial: it failed, only some of the rows need be there."""
    if "query" not in s:
        names = ["id", "d"]
        want = []
        for r in plan["dates"]:
            d = r["d"] and datetime.datetime.strptime(r["d"], "%Y-%m-%d %H:%M:%S")
            f = dict({k: v[0] for k, v in DATES.items()}, **plan["formats"])
            d = d and {"a.d": d.strftime(f["datetime_format"]), "date(a.d)": d.date().strftime(f["date_format"]), "time(a.d)": d.time().strftime(f["time_format"])}[s["dates"]]
            want.append({"id": r["id"], "d": d})
    else:
        names = list(dict.fromkeys(c05.fields(s["query"])))
    if partial and not text.endswith("\n"):
        text = text[:text.rfind("\n") + 1]
    try:
        rows = parse(text, form, names)
    except ValueError as ex:
        return "cannot be read: %s in %r" % (ex, text[:300])
    if isinstance(rows, str):
        return rows
    if "query" not in s:
        key = lambda r: json.dumps([float(r["id"]), r["d"]])
        got, want = sorted(map(key, rows)), sorted(map(key, want))
        if partial:
            return None if not set(got) - set(want) else "shows %s, not in %s" % (got, want)
        return None if got == want else "shows %s instead of %s" % (got, want)
    q = s["query"]
    if form == "csv" and any(isinstance(v, (list, dict)) for r in model.full_rows(q, model.context(source)) for v in r.values()):
        return None
    if partial:
        if c05.undefined(q, source):
            return None
        if q.get("order") or q.get("limit"):
            return None
        ks = model.kinds(q)
        extra = [r for r in model.canon_rows(rows, ks) if r not in model.canon_rows(model.full_rows(q, model.context(source)), ks)]
        return "shows %s, no row of its result" % extra if extra else None
    return c05.judge(q, source, rows)


def execute(plan):
    out = {"violations": [], "stats": {}}
    harness.preload()
    import syncany.database.textline as textline
    w = harness.world(plan)
    w.tables["dates"] = [{"id": r["id"], "d": r["d"] and datetime.datetime.strptime(r["d"], "%Y-%m-%d %H:%M:%S")} for r in plan["dates"]]
    shown = Shown(w, plan["output_fault"])
    rich = textline.get_rich
    textline.open, textline.get_rich = shown.open, lambda: None
    source = {"s." + t: [dict(r) for r in rows] for t, rows in plan["tables"].items()}
    log = []
    try:
        e = harness.engine(dict({"databases": [{"name": "s", "driver": "simdb"}, {"name": "s2", "driver": "simdb"}, {"name": "-", "driver": "textline", "format": plan["default"]},
                                               {"name": "j", "driver": "textline", "format": "json"}, {"name": "c", "driver": "textline", "format": "csv"},
                                               {"name": "x", "driver": "textline", "format": "txt"}]}, **plan["formats"]))
        harness.set_session(e, plan["session"])
        for script in plan["scripts"]:
            script = [s for s in script if s["place"] != "x`.`&1" or texts(s["query"], source)]
            text = "; ".join("%s; insert into `j`.`&2` select 'mark' as mark, %d as at" % (sql(s), i) for i, s in enumerate(script))
            if not text:
                continue
            log.append(text)
            start, ops, fired, raised = len(shown.chunks), len(w.injected), len(shown.fired), None
            try:
                harness.run_sql(w, e, text)
            except Exception as ex:
                raised = ex
            fault = len(w.injected) > ops or len(shown.fired) > fired
            problem = None
            if raised is not None and not fault:
                problem = "raised %s" % harness.err(raised)
            elif raised is None and fault:
                problem = "returned although %s" % (w.injected[ops:] or shown.fired[fired:])
            parts, marks = [[]], []
            for fd, chunk in shown.chunks[start:]:
                if fd == 2 and chunk.startswith('{"mark"') and chunk.endswith("\n"):
                    marks.append(chunk)
                    parts.append([])
                else:
                    parts[-1].append((fd, chunk))
            if not problem and marks != ['{"mark": "mark", "at": %d}\n' % i for i in range(len(marks))] or not problem and raised is None and len(marks) != len(script):
                problem = "the marks shown are %s" % marks
            if not problem:
                for i, s in enumerate(script[:len(marks) + (1 if raised is not None else 0)]):
                    fd, form = PLACES[s["place"]]
                    form = plan["default"] if form == "-" else form
                    other = [c for c in parts[i] if c[0] != fd]
                    problem = "%r was written to descriptor %d" % (other[0][1], other[0][0]) if other and i < len(marks) else \
                        judge(s, source, plan, "".join(c for f, c in parts[i] if f == fd), form, i == len(marks))
                    if problem:
                        problem = "%s: %s" % (sql(s), problem)
                        break
                    w.reach.add("shown_" + form)
                if raised is None and parts[-1] and not problem:
                    problem = "%r is shown after the last statement" % parts[-1]
            if problem:
                out["violations"].append(violation("wrong_output", "session %s, default format %s: %s\n  %s" % (plan["session"], plan["default"], " || ".join(log), problem)))
                break
            harness.saw(w, [{"t": c} for _, c in shown.chunks[start:]])
            out["stats"]["failed" if raised is not None else "completed"] = out["stats"].get("failed" if raised is not None else "completed", 0) + 1
        e.close()
    finally:
        textline.get_rich = rich
        del textline.open
    if shown.fired:
        w.injected.append(("output_" + shown.fired[0], 0, "show"))
    out["nontrivial"] = bool(shown.chunks)
    out["sample"] = {"log": log, "default": plan["default"], "shown": [c for _, c in shown.chunks][:6]}
    return out


def shrink(plan):
    yield from harness.shrink_lists(plan, [("scripts",), ("dates",), ("faults",)] + [("tables", t) for t in plan["tables"]])
    for i in range(len(plan["scripts"])):
        yield from harness.shrink_lists(plan, [("scripts", i)])
        for k, s in enumerate(plan["scripts"][i]):
            if "query" in s:
                for q in harness.shrink_query(s["query"]):
                    n = copy.deepcopy(plan)
                    n["scripts"][i][k]["query"] = q
                    yield n
            if s["place"] is not None:
                n = copy.deepcopy(plan)
                n["scripts"][i][k]["place"] = None
                yield n
    for key in list(plan["session"]):
        n = copy.deepcopy(plan)
        n["session"].pop(key)
        yield n
