"""C18: however a script is delivered, its statements run once each, in order, files in their place."""
import copy
import json
import os
import signal
import sys

from .. import harness
from ..harness import violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("a program of marking, reading and failing statements and nested script files, written with random separators, comments and literals, delivered through execute(), a context, "
        "a file, the executes setting, the command line with a file, a pipe or typed at the prompt; the marks stored are compared with the program order")
REAL = ["syncanysql parser, compiler, executor, execute tasker, main(), prompt loop, configuration files", "syncany core", "file system (scratch directory)"]
STUB = ["terminal and standard input", "storage server (simulated driver)", "wall clock", "unique ids", "open() of the script parser (injects I/O errors and read-only files)"]
ASSUMPTIONS = ["within one script SET takes effect when the script is compiled (recorded finding), so programs assign with SELECT INTO"]

LITERALS = ["a;b", "x -- y", "# z", "/* k", "*/", "d''q", 'say "hi"', "b`t", "", "l1\nl2", "--", "e;;", "\u00e9;"]


def preload():
    global prompt_toolkit, syncanysql
    import prompt_toolkit
    import syncanysql.main
    import syncanysql.parser
    import syncanysql.prompt


MODES = ["execute", "execute", "context", "file", "init", "main", "main", "pipe", "repl", "repl"]


def items(rng, depth, names, counter, failing):
    out = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6] if depth == 0 else [0, 1, 2, 3])):
        roll = rng.random()
        counter[0] += 1
        if roll < 0.5:
            m = counter[0] if rng.random() < 0.5 else rng.choice(LITERALS) + str(counter[0])
            out.append({"k": "mark", "m": m, "shape": rng.choice(["plain", "plain", "union", "sub", "values"])})
        elif roll < 0.62:
            out.append({"k": "into", "v": rng.choice("ab"), "n": counter[0]})
        elif roll < 0.75:
            out.append({"k": "read", "v": rng.choice("ab")})
        elif roll < 0.75 + failing:
            out.append({"k": rng.choice(["fail", "fail", "bad", "nofile"])})
        elif depth < 3:
            if names and rng.random() < 0.3:
                out.append({"k": "file", "name": rng.choice(sorted(names)), "again": True})
            else:
                name = "f%d.%s" % (counter[0], rng.choice(["sql", "sqlx"]))
                out.append({"k": "file", "name": name, "items": items(rng, depth + 1, names, counter, failing), "abs": rng.random() < 0.2})
                names.add(name)
    return out


def seps(rng):
    out = rng.choice(["\n", "\n", " ", "", "\n\n", "\r\n", "\t"])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        out += rng.choice(["-- note; select 1\n", "/* c ; */", "# x;\n", ";", " ; ", "--\n", "/**/", "-- a\r\n",
                           "-- don't\n", "/* it's ; \"*/", "# isn't `\n", '-- "\n', "/*'*/"])
    return out


def generate(rng, index, tier):
    mode = rng.choice(MODES)
    names, counter = set(), [0]
    program = items(rng, 0, names, counter, rng.choice([0, 0, 0.06]))
    plan = {"mode": mode, "items": program, "seps": [seps(rng) for _ in range(40)], "inner": [rng.random() for _ in range(40)],
            "inner_text": [rng.choice([" /* ; */ ", "\n-- x;\n", "\n# y;\n", "\n", "  ", " /* it's */ ", "\n-- don't\n"]) for _ in range(10)],
            "last": rng.random() < 0.3, "per_entry": rng.choice([1, 1, 2]), "eof": rng.choice(["eof", "exit", "EXIT;"]), "ctrl_c": rng.random() < 0.2,
            "two_scripts": rng.random() < 0.5, "config_in": rng.choice(["home", "cwd"]), "read_only": rng.random() < 0.15,
            "fault": rng.choice([None, None, None, {"kind": rng.choice(["error", "lost_ack", "interrupt", "terminal", "sigterm", "open"]), "frac": rng.random()}]),
            "storage": dict(harness.pick_storage(rng), shuffle=False)}
    if mode == "main" and rng.random() < 0.4:
        plan["tty"] = False          # started by cron or a service: the file is run, not what stdin holds
    plan["init"] = mode != "init" and plan["fault"] is None and rng.random() < 0.3
    return plan


class Read(object):
    """The mark of a statement that stores a variable; anything once the assignment may have failed."""
    loose = False

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return self.value == other or Read.loose and (other is None or isinstance(other, int))

    def __repr__(self):
        return repr(self.value)


class Text(object):
    """Renders statements; cosmetic choices come from the plan."""

    def __init__(self, plan):
        self.plan, self.n = plan, 0

    def next(self, what):
        self.n += 1
        return self.plan[what][self.n % len(self.plan[what])]

    def statement(self, s, env):
        k = s["k"]
        if k == "mark":
            m = s["m"] if isinstance(s["m"], int) else "'%s'" % s["m"]
            text = "insert into s.log select a.id as id, %s as m from s.t a where a.id=1" % m
            if s["shape"] == "union":
                text = "insert into s.log select a.id as id, %s as m from s.t a where a.id=1 union select b.id as id, 0 as m from s.t b where b.id=99" % m
            if s["shape"] == "sub":
                text = "insert into s.log select q.id as id, q.m as m from (select a.id as id, %s as m from s.t a where a.id=1) q" % m
            if s["shape"] == "values":
                text = "insert into s.log (id, m) values (1, %s)" % m
        elif k == "into":
            return "select (a.id+%d) as m into @%s from s.t a where a.id=1" % (s["n"], s["v"])
        elif k == "read":
            if s["v"] not in env:
                return None
            text = "insert into s.log select a.id as id, @%s as m from s.t a where a.id=1" % s["v"]
        elif k == "fail":
            text = "insert into s.log select sim_boom(a.id, 1) as id, 0 as m from s.t a where a.id=1"
        elif k == "bad":
            return "select from where"
        elif k == "nofile":
            return "execute `missing.sql`"
        else:
            return "execute `%s`" % (os.path.abspath(s["name"]) if s.get("abs") else s["name"])
        if self.next("inner") < 0.25 and " from " in text and "\n" not in text:
            text = text.replace(" from ", self.next("inner_text") + " from ", 1)
        return text

    def join(self, statements):
        out = self.next("seps") if statements else ""
        for i, s in enumerate(statements):
            last = i == len(statements) - 1
            out += s + ("" if last and self.plan["last"] else ";" + self.next("seps"))
        return out


class Prompt(object):
    """Stands for prompt_toolkit's session: entries come from the plan, history goes to the real history object."""
    entries, done, typed = [], 0, True

    def __init__(self, *args, **kwargs):
        self.history = kwargs.get("history")
        self.app = self
        self.current_buffer = self
        self.text = ""

    def prompt(self, *args, **kwargs):
        cls = type(self)
        if cls.done >= len(cls.entries):
            raise EOFError()
        entry = cls.entries[cls.done]
        cls.done += 1
        if entry is None:
            raise KeyboardInterrupt()
        self.text = ""
        multiline = kwargs.get("multiline")
        lines = entry.split("\n") if cls.typed else [entry]        # typed line by line, or pasted
        for i, line in enumerate(lines):
            self.text += line
            if multiline is None or not multiline():
                if i < len(lines) - 1:
                    cls.early.append(entry)
                break
            self.text += "\n"
        if self.history is not None and self.text.strip():
            self.history.append_string(self.text)
        return self.text


class Stdin(object):
    def __init__(self, tty, text=""):
        self.tty, self.text = tty, text

    def isatty(self):
        return self.tty

    def read(self, *args):
        text, self.text = self.text, ""
        return text

    def close(self):
        pass


def expected(program, env, files, text):
    """[(mark or "boom")] in order, [statement texts]; raises for what cannot be compiled."""
    marks, statements = [], []
    for s in program:
        t = text.statement(s, env)
        if t is None:
            continue
        statements.append(t)
        if s["k"] == "mark":
            marks.append(s["m"].replace("''", "'") if isinstance(s["m"], str) else s["m"])
        elif s["k"] == "read":
            marks.append(Read(env[s["v"]]))
        elif s["k"] == "into":
            env[s["v"]] = 1 + s["n"]
        elif s["k"] in ("fail", "bad", "nofile"):
            marks.append(s["k"])
        elif s["k"] == "file":
            if "items" in s:
                child = dict(env)
                inner, inner_statements = expected(s["items"], child, files, text)
                files[s["name"]] = {"items": s["items"], "text": text.join(inner_statements), "env": env}
                marks.append(inner)
            else:
                f = files.get(s["name"])
                if f is None or not simple(f["items"]):
                    statements.pop()
                    continue
                marks.append(expected(f["items"], dict(env), files, Text({"inner": [1], "inner_text": [""], "seps": [""], "last": False}))[0])
    return marks, statements


def simple(program):
    """A file whose meaning does not depend on the variables around it."""
    return all(s["k"] == "mark" or s["k"] == "file" and "items" in s and simple(s["items"]) for s in program)


def flat(marks):
    for m in marks:
        if isinstance(m, list):
            yield from flat(m)
        else:
            yield m


def until_failure(marks):
    """(marks a run of one script leaves, how it ends)."""
    all_marks = list(flat(marks))
    if "bad" in all_marks or "nofile" in all_marks:
        return [], "error"
    if "fail" in all_marks:
        return all_marks[:all_marks.index("fail")], "error"
    return all_marks, None


def execute(plan):
    out = {"violations": [], "stats": {plan["mode"]: 1}}
    w = harness.world(plan, {"t": [{"id": 1}, {"id": 2}], "log": []})
    mode, fault = plan["mode"], plan["fault"]
    text, files, env = Text(plan), {}, {}
    config = copy.deepcopy(harness.CONFIG)
    marks, statements = expected(plan["items"], env, files, text)
    script = text.join(statements)
    for name, f in files.items():
        with open(name, "w", newline="") as fp:
            fp.write(f["text"])
    if mode in ("init", "main", "file"):
        with open("main.sql", "w", newline="") as fp:
            fp.write(script)
    if plan.get("init"):
        config["executes"] = ["init.sql"]
        with open("init.sql", "w") as fp:
            fp.write("insert into s.log (id, m) values (0, 'init 1');\n-- don't\ninsert into s.log (id, m) values (0, 'init 2')")
    home = os.path.join(os.environ["HOME"], ".syncany")
    if mode in ("main", "pipe", "repl"):
        os.mkdir(home)
        with open(os.path.join(home if plan["config_in"] == "home" else ".", "config.json"), "w") as fp:
            json.dump(config, fp)
    groups = []                     # what is compiled together: (marks, text)
    if mode == "repl":
        at = 0
        while at < len(statements):
            n = plan["per_entry"]
            groups.append((marks_of(plan, statements, marks, at, n), "; ".join(statements[at:at + n]) + ";"))
            at += n
    else:
        groups.append((marks, script))
    opened, total_opens = [0], [None]
    real_open = open

    def sim_open(name, opening="r", *args, **kwargs):
        if not str(name).endswith((".sql", ".sqlx")):
            return real_open(name, opening, *args, **kwargs)
        opened[0] += 1
        if plan["read_only"] and any(c in opening for c in "wa+x"):
            w.injected.append(("read_only_file", opened[0], "open"))
            raise PermissionError(13, "read-only file", name)
        if fault and fault["kind"] == "open" and opened[0] == fault.get("at"):
            w.injected.append(("open_error", opened[0], "open"))
            raise OSError(5, "simulated I/O error", name)
        return real_open(name, opening, *args, **kwargs)
    syncanysql.parser.open = sim_open
    Prompt.entries, Prompt.done, Prompt.early, Prompt.typed = [], 0, [], plan["per_entry"] == 1
    hit = {}

    def run():
        """Deliver the whole program; returns how each script ended."""
        ends = []
        if mode in ("execute", "context", "file"):
            e = harness.engine(config)
            target = e.context() if mode == "context" else e
            try:
                target.execute("execute `main.sql`" if mode == "file" else script)
                ends.append(None)
            except KeyboardInterrupt:
                ends.append("interrupt")
            except Exception as ex:
                ends.append("error")
                w.note("failed", e=harness.err(ex))
            if plan["two_scripts"]:
                hit["before_second"] = len(w.tables["log"])
                w.faults, w.probe = {}, None
                target.execute("insert into s.log select a.id as id, 'second' as m from s.t a where a.id=1")
            e.close()
        elif mode == "init":
            sql = harness.preload()
            e = sql.ScriptEngine(dict(config, executes=["main.sql"]))
            try:
                e.setup()
                ends.append(None)
            except KeyboardInterrupt:
                ends.append("interrupt")
            except Exception:
                ends.append("error")
            if plan["two_scripts"]:
                hit["before_second"] = len(w.tables["log"])
                w.faults, w.probe = {}, None
                e.execute("insert into s.log select a.id as id, 'second' as m from s.t a where a.id=1")
            e.close()
        else:
            argv = ["syncany-sql"] + (["main.sql"] if mode == "main" else [])
            sys.argv, sys.stdin = argv, Stdin(mode != "pipe" and plan.get("tty", True),
                                                         script if mode == "pipe" else "insert into s.log select a.id as id, 'from stdin' as m from s.t a where a.id=1")
            if mode == "repl":
                Prompt.entries = []
                for _, t in groups:
                    if plan["ctrl_c"]:
                        Prompt.entries.append(None)
                    Prompt.entries.append(t)
                if plan["eof"] != "eof":
                    Prompt.entries += [plan["eof"], "insert into s.log select a.id as id, 'after exit' as m from s.t a where a.id=1;"]
                syncanysql.prompt.PromptSession = prompt_toolkit.PromptSession = Prompt
            try:
                syncanysql.main.main()
                ends.append(None)
            except SystemExit as ex:
                ends.append({None: None, 0: None, 1: "error", 130: "interrupt"}.get(ex.code, "code %s" % ex.code))
        return ends

    if fault and fault["kind"] not in ("open",):
        def probe(at, op, table):
            if at != fault.get("at"):
                return
            hit["marks"] = len(w.tables["log"])
            hit["entry"] = Prompt.done
            w.injected.append((fault["kind"], at, op)) if fault["kind"] in ("terminal", "sigterm") else None
            if fault["kind"] == "sigterm":
                os.kill(os.getpid(), signal.SIGTERM)
            if fault["kind"] == "terminal":
                if mode in ("main", "pipe", "repl"):
                    from syncanysql.executor import Executor
                    root = Executor.current()
                    while root.parent_executor is not None:
                        root = root.parent_executor
                    root.terminate()
                else:
                    stop()

        def stop():
            import gc
            from syncanysql import ScriptEngine, ExecuterContext
            for o in gc.get_objects():
                if isinstance(o, (ExecuterContext, ScriptEngine)) and getattr(o, "executor", None) is not None:
                    o.terminal()
        ops = 2 * len(list(flat(marks))) + 1
        fault.setdefault("at", 1 + int(fault["frac"] * ops))
        if fault["kind"] == "sigterm" and mode not in ("main", "pipe", "repl"):
            fault["kind"] = "terminal"
        w.probe = probe
        if fault["kind"] in ("error", "lost_ack", "interrupt"):
            w.faults = {fault["at"]: {"kind": fault["kind"], "at": fault["at"]}}
    elif fault:
        fault.setdefault("at", 1 + int(fault["frac"] * (len(files) + (mode in ("file", "main", "init")))))
    ends = run()
    injected = {f[0] for f in w.injected}
    got = [r.get("m") for r in w.tables["log"]]
    problem = None
    if plan["two_scripts"] and mode in ("execute", "context", "file", "init"):
        if got[-1:] != ["second"]:
            problem = "the next script did not run: %s" % got[-3:]
        elif len(got) - 1 != hit.get("before_second", len(got) - 1):
            problem = "statements of the first script ran during the second: %s" % got
        got = got[:-1]
    if plan.get("init"):
        if got[:2] != ["init 1", "init 2"]:
            problem = "the init file did not run first: %s" % got
        got = got[2:]
    w.note("log", marks=[repr(m) for m in got], ends=ends)
    want, ends_want = [], None
    Read.loose = mode == "repl" and bool(fault or {"fail", "bad", "nofile"} & {m for m in flat(marks) if isinstance(m, str)})
    fired = bool(injected & {"error_before", "lost_ack", "interrupt", "terminal", "sigterm"})
    if mode == "repl":
        at_entry = hit.get("entry") if fired else None
        stopped = bool(injected & {"terminal", "sigterm"})
        for n, (g, _) in enumerate(groups):
            done, how = until_failure(g)
            entry = (n + 1) * (2 if plan["ctrl_c"] else 1)
            if at_entry == entry:
                had = len(want)
                here = got[had:had + len(done)]
                # this entry was hit: any prefix of it may be there, the entries after it must be complete
                keep = 0
                rest = [m for g2, _ in groups[n + 1:] for m in until_failure(g2)[0]]
                for keep in range(len(done) + 1):
                    if got == want + done[:keep] + rest:
                        break
                want = want + done[:keep]
                del here
            else:
                want += done
        if "open_error" in injected:
            want = None
        elif got != want and not problem:
            problem = "the marks are %s, should be %s" % (got, want)
        if not problem and Prompt.done < len(groups) * (2 if plan["ctrl_c"] else 1):
            problem = "the prompt ended after %d of %d entries%s" % (Prompt.done, len(groups), " (stopped)" if stopped else "")
        if not problem and "after exit" in got:
            problem = "entries after exit ran"
        if not problem and ends[0] is not None:
            problem = "the prompt ended with %s" % ends
        if not problem and Prompt.early:
            problem = "an entry was taken as complete too early: %s" % Prompt.early
    elif not problem:
        want, ends_want = until_failure(marks)
        if "open_error" in injected:
            want, ends_want = [], "error"
        if fired:
            if got != want[:len(got)]:
                problem = "after %s the marks are %s, not a beginning of %s" % (injected, got, want)
            elif injected & {"terminal", "sigterm"} and len(got) > hit["marks"] + 1:
                problem = "stopped after %d marks, but there are %d" % (hit["marks"], len(got))
            elif "error_before" in injected or "lost_ack" in injected:
                if ends[0] != "error":
                    problem = "a storage failure was not reported: ended with %s" % ends
            elif "interrupt" in injected and ends[0] != "interrupt":
                problem = "an interrupt was not reported: ended with %s" % ends
        elif got != want:
            problem = "the marks are %s, should be %s" % (got, want)
        elif ends[0] != ends_want:
            problem = "it ended with %s, should end with %s" % (ends[0], ends_want)
    if problem:
        out["violations"].append(violation("wrong_statements", "%s%s%s: %s\n  files %s\n  fault %s %s\n  %s" % (
            mode, " (read-only files)" if plan["read_only"] else "", " two scripts" if plan["two_scripts"] else "",
            json.dumps(script if mode != "repl" else [t for _, t in groups]), json.dumps({n: f["text"] for n, f in files.items()}), fault, w.injected, problem)))
    for k in ("fail", "bad", "nofile"):
        if k in list(flat(marks)):
            w.reach.add("program_with_" + k)
    if any(isinstance(m, list) for m in marks):
        w.reach.add("nested_files")
    out["stats"]["statements"] = len(list(flat(marks)))
    out["nontrivial"] = len(list(flat(marks))) > 0
    out["sample"] = {"mode": mode, "script": script[:300]}
    return out


def marks_of(plan, statements, marks, at, n):
    """The marks of statements at..at+n (statements that leave no mark excluded)."""
    out, m = [], 0
    for i, s in enumerate(statements):
        leaves = not s.startswith("select (a.id+")
        if at <= i < at + n and leaves:
            out.append(marks[m])
        m += leaves
    return out


def shrink(plan):
    def paths(program, prefix):
        yield prefix
        for i, s in enumerate(program):
            if "items" in s:
                yield from paths(s["items"], prefix + (i, "items"))
    yield from harness.shrink_lists(plan, list(paths(plan["items"], ("items",))))
    for key, value in (("read_only", False), ("two_scripts", False), ("ctrl_c", False), ("init", False), ("fault", None), ("seps", ["\n"]), ("inner", [1.0]), ("last", False), ("per_entry", 1)):
        if plan[key] != value:
            p = copy.deepcopy(plan)
            p[key] = value
            yield p
    for m in ("execute",):
        if plan["mode"] != m:
            yield dict(copy.deepcopy(plan), mode=m)
