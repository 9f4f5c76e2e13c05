"""C21: a file named in a statement is the table of its rows, for every statement and session."""
import copy
import csv
import errno
import io
import json
import os

from .. import gen, harness, hist, kernel, model
from ..harness import violation

RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("a history of statements that write, delete and read json and csv files under several names and directories, with restarts of the engine, files replaced "
        "from outside, disk errors and full disks; the files and every result are judged against a model of one table per file")
REAL = ["syncanysql parser, compiler (file names as tables), executor, query/delete taskers", "syncany core and its json and csv drivers"]
STUB = ["file system (in memory, below the json and csv drivers)", "storage server (simulated driver)", "wall clock", "unique ids"]
ASSUMPTIONS = ["a file whose writing failed holds anything until it is replaced", "csv files are only appended to, with the same columns; a csv cell is text, read with a typed column",
               "a text file is written anew by each page of a statement"]

ROOT = "/simdata"


class Files(object):
    """The files below the drivers: absolute path -> text."""

    def __init__(self, w, faults):
        self.w, self.text, self.opens, self.faults, self.fired = w, {}, 0, {f["at"]: f for f in faults}, []

    def mine(self, path):
        return isinstance(path, str) and path.endswith((".json", ".csv", ".txt"))

    def key(self, path):
        return os.path.normpath(path)

    def name(self, path):
        return os.path.relpath(self.key(path), ROOT if path.startswith(ROOT) else os.getcwd())

    def open(self, path, mode="r", *args, **kwargs):
        if not self.mine(path):
            return open(path, mode, *args, **kwargs)
        self.opens += 1
        fault = self.faults.pop(self.opens, None)
        path = self.key(path)
        self.w.note("open", f=self.name(path), m=mode, n=self.opens)
        if fault and (fault["kind"] == "error" or mode == "r"):
            self.fired.append(("error", self.opens, "open_" + mode, path))
            raise OSError(errno.EIO, "simulated disk error", self.name(path))
        if mode == "r":
            if path not in self.text:
                raise FileNotFoundError(errno.ENOENT, "no such file", self.name(path))
            return io.StringIO(self.text[path], newline="")
        return Writer(self, path, fault)


class Writer(io.StringIO):
    def __init__(self, files, path, fault):
        super(Writer, self).__init__(newline="")
        self.files, self.path, self.fault = files, path, fault
        files.text[path] = ""

    def write(self, data):
        if self.fault:
            room = self.fault.get("room", 0) - self.tell()
            if len(data) > room:
                super(Writer, self).write(data[:max(room, 0)])
                self.files.text[self.path] = self.getvalue()
                self.files.fired.append(("full", self.files.opens, "open_w", self.path))
                raise OSError(errno.ENOSPC, "simulated full disk", self.files.name(self.path))
        n = super(Writer, self).write(data)
        self.files.text[self.path] = self.getvalue()
        return n

    def close(self):
        if not self.closed:
            self.files.text[self.path] = self.getvalue()
        super(Writer, self).close()


class Os(object):
    """The os module as a driver sees it."""

    class Path(object):
        def __init__(self, files):
            self.files = files

        def exists(self, path):
            return self.files.key(path) in self.files.text if self.files.mine(path) else os.path.exists(path)

        def __getattr__(self, name):
            return getattr(os.path, name)

    def __init__(self, files):
        self.path = Os.Path(files)

    def __getattr__(self, name):
        return getattr(os, name)


def is_text(f):
    """Whether the cells are text."""
    return not f["name"].endswith("json")


def where_of(f):
    return os.path.normpath(os.path.join(ROOT if f["abs"] else os.getcwd(), f["dir"], f["name"]))


def spell(f, n):
    """One of the ways to write the path of a file."""
    path = f["dir"] + ("/" if f["dir"] else "") + f["name"]
    form = {"x.txt": "csv", "o.txt": "json"}.get(f["name"])
    if form and f["abs"] and n % 4 == 1:
        return "file://" + ROOT + "/" + path.replace("%", "%25").replace("+", "%2B").replace("#", "%23") + "?format=" + form
    tail = "<%s>" % form if form else ""
    return spelled(f, n, path) + tail


def spelled(f, n, path):
    if f["abs"]:
        url = path.replace("%", "%25").replace("+", "%2B")
        return [ROOT + "/" + path, "file://" + ROOT + "/" + (url if len(url) % 2 else url.replace(" ", "%20")), ROOT + "/./" + path, ROOT + "/q/../" + path][n % 4]
    return [path, "./" + path, "q/../" + path, path][n % 4]


def files(rng):
    out = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        f = {"abs": rng.random() < 0.6, "dir": rng.choice(["", "d-1", "d_1", "d 1", "a/b", "a_b", "D_1", "a.b", "a#1", "a%201", "a+1", "\u00e9", "\u00e8"]),
             "name": rng.choice(["x.json", "x.json", "y.json", "x.csv", "x.y.json", "x-y.json", "x.txt", "o.txt"])}
        if f not in out:
            out.append(f)
    return out


def rows_for(rng, f):
    ids = sorted(rng.sample(range(1, 13), rng.choice([0, 1, 2, 4, 7])))
    vs = [0, 1, 5, 9] if is_text(f) else [0, 1, 5, 9, None, 2.5]
    return [{"id": i, "v": rng.choice(vs), "h": rng.choice(gen.WORDS + ["a,b", 'q"q', "l\nm"])} for i in ids]


def column(f, alias, col):
    """A column of a file; a csv cell is text."""
    return ["c", alias, "`%s[int]`" % col if f and is_text(f) and col in ("id", "v") else col]


def conds(rng, f, alias):
    """Conditions on a file. The drivers hold NULL for the least value and compare a csv cell as text: none that would show it."""
    text = ["cmp", rng.choice(["=", "!="]), ["c", alias, "h"], ["l", rng.choice(gen.WORDS)]]
    if is_text(f):
        return [text] if rng.random() < 0.4 else []
    key = ["c", alias, "id"]
    return [rng.choice([["cmp", rng.choice([">", ">=", "<", "<=", "=", "!="]), key, ["l", rng.choice([1, 3, 5, 8])]],
                        ["in", key, [1, 3, 5, 7]], ["cmp", rng.choice([">", "="]), ["c", alias, "v"], ["l", rng.choice([0, 1, 5])]], text])
            for _ in range(rng.choice([0, 0, 1, 1, 2]))]


def generate(rng, index, tier):
    tables = gen.tables(rng, ("t", "u"))
    fs = files(rng)
    steps = []
    for n in range(rng.choice([2, 3, 4, 5, 7])):
        i = rng.randrange(len(fs))
        f = fs[i]
        roll = rng.random()
        spelling = rng.randrange(4)
        if roll < 0.12:
            steps.append({"op": "outside", "file": i, "rows": rows_for(rng, f)})
        elif roll < 0.2:
            steps.append({"op": "restart"})
        elif roll < 0.3 and not is_text(f):
            w = [c for c in conds(rng, f, "")]
            cols = [repr(c[2] if c[0] == "cmp" else c[1]) for c in w]
            steps.append({"op": "delete", "file": i, "spell": spelling, "where": w if len(set(cols)) == len(cols) else w[:1]})
        elif roll < 0.62 and f["name"] != "x.txt" or f["name"] == "o.txt":
            mode = None if f["name"] == "o.txt" else "I" if is_text(f) else rng.choice(["I", None, "U", "UI", "UI", "UDI", "DI"])
            if rng.random() < 0.3:
                k = rng.choice([k for k in range(len(fs)) if fs[k]["name"] != "o.txt"] or [None])
                if k is None:
                    continue
                q = {"from": {"file": k, "spell": rng.randrange(4), "alias": "a"}, "where": conds(rng, fs[k], "a"),
                     "select": [{"e": column(fs[k], "a", "id"), "as": "id"}, {"e": column(fs[k], "a", "v"), "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]}
                if is_text(f):
                    q["select"][1]["e"] = column(fs[k], "a", "id")
            else:
                q = {"from": {"name": "s.t", "alias": "a"}, "where": gen.where(rng, "a", "t", 0.3),
                     "select": [{"e": ["c", "a", "id"], "as": "id"}, {"e": ["c", "a", rng.choice(["k", "id"])], "as": "v"}, {"e": ["c", "a", "h"], "as": "h"}]}
            if mode in ("UDI", "DI"):
                q["where"] = [c for c in q["where"] if c[0] == "cmp" and c[2] == ["c", "a", "id"] and c[1] != "!="][:1]
            steps.append({"op": "write", "file": i, "spell": spelling, "mode": mode, "query": q})
        else:
            steps.append({"op": "read", "target": "r%d" % n, "query": read(rng, fs, i, spelling)})
    n = len(tables["t"])
    faults = [{"at": rng.randint(1, 12), "kind": rng.choice(["error", "full"]), "room": rng.choice([0, 1, 20])} for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"tables": tables, "files": fs, "start": [rows_for(rng, f) if rng.random() < 0.8 else None for f in fs], "steps": steps,
            "session": harness.pick_session(rng, n), "storage": harness.pick_storage(rng), "scan_seed": rng.randrange(1 << 30), "file_faults": faults}


def read(rng, fs, i, spelling):
    f = fs[i]
    src = {"file": i, "spell": spelling, "alias": "a"}
    key, val = column(f, "a", "id"), column(f, "a", "v")
    q = {"from": src, "where": conds(rng, f, "a")}
    roll = rng.random()
    if roll < 0.3:
        q["select"] = [{"e": ["c", "a", "h"], "as": "g0"}, {"e": ["agg", rng.choice(["count", "sum", "max"]), key], "as": "c0"}, {"e": ["agg", "count*"], "as": "c1"}]
        q["group"] = [["c", "a", "h"]]
        return q
    q["select"] = [{"e": key, "as": "p"}, {"e": rng.choice([val, ["c", "a", "h"], ["+", key, ["l", 1]]]), "as": "c0"}]
    if roll < 0.5:
        j = [k for k, g in enumerate(fs) if not is_text(g)]
        if j:
            k = rng.choice(j)
            q["joins"] = [{"kind": rng.choice(["left", "inner"]), "src": {"file": k, "spell": rng.randrange(4), "alias": "b", "cols": ["id", "v", "h"]},
                           "on": [[key, ["c", "b", "id"]]], "where": []}]
            q["select"].append({"e": ["c", "b", rng.choice(["v", "h"])], "as": "o"})
            if rng.random() < 0.5:
                q["from"], q["where"], q["joins"][0]["on"] = {"name": "s.t", "alias": "a"}, gen.where(rng, "a", "t", 0.3), [[["c", "a", "id"], ["c", "b", "id"]]]
                q["select"][:2] = [{"e": ["c", "a", "id"], "as": "p"}]
    elif roll < 0.62:
        j = [k for k, g in enumerate(fs) if not is_text(g)]
        if j and not is_text(f):
            q["where"] = [["insub", key, {"from": {"file": rng.choice(j), "spell": rng.randrange(4), "alias": "b"}, "where": [],
                                          "select": [{"e": ["c", "b", "id"], "as": "id"}]}]]
    elif roll < 0.75:
        gen.order_limit(rng, q, "p", ["p"])
    return q


def named(x, fs):
    """The query with every file written as a table name."""
    if isinstance(x, dict):
        x = {k: named(v, fs) for k, v in x.items()}
        if "file" in x and "alias" in x:
            x["name"] = "`%s`" % spell(fs[x.pop("file")], x.pop("spell", 0))
        return x
    return [named(v, fs) for v in x] if isinstance(x, list) else x


def text(f, rows):
    if f["name"] == "o.txt":
        return "".join(json.dumps(r) + "\n" for r in rows)
    if is_text(f):
        out = io.StringIO(newline="")
        writer = csv.writer(out)
        writer.writerow(["id", "v", "h"])
        for r in rows:
            writer.writerow([r["id"], r["v"], r["h"]])
        return out.getvalue()
    return json.dumps(rows)


def parsed(f, content):
    if content is None:
        return []
    if f["name"] == "o.txt":
        return [json.loads(line) for line in content.split("\n") if line]
    if is_text(f):
        lines = list(csv.reader(io.StringIO(content, newline="")))
        return [{k: int(v) if k in ("id", "v") else v for k, v in zip(lines[0], line)} for line in lines[1:]] if lines else []
    return json.loads(content)


def source(tables, fs, state):
    out = {"s." + t: rows for t, rows in tables.items()}
    for f, rows in zip(fs, state):
        rows = [dict({"v": None, "h": None}, **r) for r in rows]
        for n in range(4):
            out["`%s`" % spell(f, n)] = [dict(r, **{"`id[int]`": r["id"], "`v[int]`": r["v"]}) for r in rows]
    return out


def plain_step(step, fs):
    """The step as hist knows it, on a table called "it"."""
    s = {"op": step["op"], "target": "it", "where": step.get("where"), "mode": step.get("mode")}
    if step["op"] == "write":
        s["query"] = named(step["query"], fs)
    return s


def sql(step, fs):
    if step["op"] == "read":
        return "insert into s.%s %s" % (step["target"], model.sql(named(step["query"], fs)))
    name = spell(fs[step["file"]], step["spell"])
    if fs[step["file"]]["name"] == "o.txt":
        return "insert into `%s` %s" % (name, model.sql(named(step["query"], fs)))
    if step["op"] == "delete":
        return "delete from `%s`%s" % (name, " where " + " and ".join(model.cond_sql(c) for c in step["where"]) if step["where"] else "")
    return "insert into `%s%s` %s" % (name, "<%s>" % step["mode"] if step["mode"] else "", model.sql(named(step["query"], fs)))


def after(step, fs, tables, state):
    """The content of the step's file when it has completed."""
    s = plain_step(step, fs)
    old = hist.source
    hist.source = lambda st: source(tables, fs, state)
    try:
        if fs[step["file"]]["name"] == "o.txt":
            rows = hist.apply(s, {"it": []})["it"]      # a text file is written anew
            return s, rows or state[step["file"]]
        return s, hist.apply(s, {"it": [dict(r) for r in state[step["file"]]]})["it"]
    finally:
        hist.source = old


def twice(rows):
    return len({r["id"] for r in rows}) < len(rows)


def execute(plan):
    out = {"violations": [], "stats": {}}
    harness.preload()
    import syncany.database.csv as csv_driver
    import syncany.database.json as json_driver
    w = harness.world(plan)
    fs = plan["files"]
    disk = Files(w, plan["file_faults"])
    import syncany.database.textline as text_driver
    drivers = (csv_driver, json_driver, text_driver)
    kept = [d.os for d in drivers]
    for d in drivers:
        d.open, d.os = disk.open, Os(disk)
    state = [[dict(r) for r in rows or []] for rows in plan["start"]]
    # two entries of the list may be one file
    for i, f in enumerate(fs):
        if plan["start"][i] is not None:
            disk.text[where_of(f)] = text(f, plan["start"][i])
    log = []
    try:
        e = harness.engine()
        harness.set_session(e, plan["session"])
        for step in plan["steps"]:
            if step["op"] == "restart":
                e.close()
                e = harness.engine()
                harness.set_session(e, plan["session"])
                log.append("[restart]")
                continue
            if step["op"] == "outside":
                state[step["file"]] = [dict(r) for r in step["rows"]]
                disk.text[where_of(fs[step["file"]])] = text(fs[step["file"]], step["rows"])
                log.append("[%s replaced]" % disk.name(where_of(fs[step["file"]])))
                continue
            if step["op"] == "write" and step["mode"] not in ("I", None) and (
                    twice(state[step["file"]]) or twice(state[step["query"]["from"].get("file", step["file"])])):
                continue                    # rows that are not told apart by their key
            if step["op"] == "write" and fs[step["file"]]["name"] == "o.txt" and ("batch" in plan["session"] or "insert_batch" in plan["session"]):
                continue                    # every page replaces the text
            statement = sql(step, fs)
            log.append(statement)
            before, fired, raised = dict(disk.text), len(disk.fired), None
            want = after(step, fs, plan["tables"], state) if step["op"] != "read" else None
            try:
                harness.run_sql(w, e, statement)
            except Exception as ex:
                raised = ex
            fault = disk.fired[fired:]
            problem = None
            if raised is not None and not fault:
                problem = "raised %s" % harness.err(raised)
            elif raised is None and fault:
                problem = "returned although %s" % (fault[0][:3],)
            target = where_of(fs[step["file"]]) if step["op"] != "read" else None
            for path in sorted(set(disk.text) | set(before)):
                if not problem and path != target and disk.text.get(path) != before.get(path):
                    problem = "%s, which the statement does not name, changed from %r to %r" % (disk.name(path), before.get(path), disk.text.get(path))
            if not problem and step["op"] == "read":
                got = w.tables.get(step["target"], [])
                if raised is None:
                    problem = model.judge(named(step["query"], fs), source(plan["tables"], fs, state), got)
                    harness.saw(w, got)
            elif not problem:
                i = step["file"]
                if any(x[2] == "open_w" for x in fault):
                    state[i] = []           # whatever is left of it, somebody clears it up
                    disk.text[target] = text(fs[i], [])
                    w.reach.add("write_failed")
                else:
                    got = parsed(fs[i], disk.text.get(target))
                    if raised is not None:
                        problem = hist.partial_problem(want[0], state[i], want[1], got)
                        w.reach.add("read_failed")
                    else:
                        problem = hist.same(got, want[1])
                    problem = problem and "%s: %s" % (disk.name(target), problem)
                    state[i] = got
                    harness.saw(w, got)
            if problem:
                out["violations"].append(violation("wrong_file", "session %s: %s\n  %s" % (plan["session"], " ;; ".join(log), problem)))
                break
            out["stats"][step["op"]] = out["stats"].get(step["op"], 0) + 1
        e.close()
    finally:
        for d, o in zip(drivers, kept):
            d.os = o
            del d.open
    if disk.fired:
        out["faults"] = {}
        for kind, _, on, _ in disk.fired:
            out["faults"]["disk_%s_%s" % (kind, on)] = out["faults"].get("disk_%s_%s" % (kind, on), 0) + 1
    out["nontrivial"] = bool(disk.opens)
    out["sample"] = {"log": log[-5:], "session": plan["session"]}
    return out


def shrink(plan):
    yield from harness.shrink_lists(plan, [("steps",), ("file_faults",)] + [("tables", t) for t in plan["tables"]])
    for i, rows in enumerate(plan["start"]):
        if rows:
            yield from harness.shrink_lists(plan, [("start", i)])
    for key in list(plan["session"]):
        n = copy.deepcopy(plan)
        n["session"].pop(key)
        yield n
