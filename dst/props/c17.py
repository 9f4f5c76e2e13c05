"""C17: the history file of the prompt keeps what was entered, through crashes and disk errors at any point."""
import builtins
import copy
import os

from .. import harness
from ..harness import SimCrash, violation

RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("sessions of the prompt with random entries (several lines, unicode, lines that look like file markers, entries that fail), ended by exit, end of input, a crash or a disk error "
        "at a random file operation; every session start compares the history offered with the entries made")
REAL = ["prompt loop and history file class of syncanysql", "prompt_toolkit FileHistory", "syncanysql executor", "file system (scratch directory)"]
STUB = ["terminal (entries come from the plan)", "writes below the home directory are buffered, and reach the file in whole, in part (crash, full disk) or not at all", "os.system (records only)"]
ASSUMPTIONS = ["a crash is the death of the process, not of the machine: what was flushed stays", "one prompt at a time uses the history file"]

TEXTS = ["set @a=1;", "select 1;\nset @b=2;", "+plus;", "# not a comment;\nset @c=1;", "set @d='\u4e2d\u6587\U0001f600';", "\n\nset @e=1;", "set @f='x\n\n\ny';", "   ;", "bad sql;",
         "set @g='" + "long " * 300 + "';", "%cd .", "!echo 1", "set @h='a\n#b\n+c\n';", "set @i='\u2028\x85\x0b';", "set @j='\r\n';", "set @k='\t';\n\n"]


def preload():
    global prompt_toolkit, syncanysql, CliPrompt
    import prompt_toolkit
    import syncanysql.prompt
    from syncanysql.prompt import CliPrompt


def generate(rng, index, tier):
    sessions, n = [], 0
    for _ in range(rng.choice([2, 3, 4, 6])):
        entries = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 8, 8, 20, 55])):
            n += 1
            t = rng.choice(TEXTS) if rng.random() < 0.4 else "set @n=%d;" % n
            entries.append(t)
        fault = None
        if rng.random() < 0.5:
            fault = {"kind": rng.choice(["crash", "crash", "full", "io"]), "frac": rng.random(), "keep": rng.random(), "early": rng.random() < 0.5}
        sessions.append({"entries": entries, "end": rng.choice(["eof", "exit", "kill"]), "fault": fault})
    sessions.append({"entries": [], "end": "eof", "fault": None})
    return {"sessions": sessions, "old_file": rng.choice([None, None, 3, 49, 50, 51, 80]), "no_times": rng.random() < 0.3}


class Disk(object):
    """File operations below a directory, counted; one of them may fail or be the last."""

    def __init__(self, w, root):
        self.w, self.root, self.ops, self.fault, self.dead = w, root, 0, None, False
        self.real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "truncate", "link")}
        self.open = builtins.open
        builtins.open = self.sim_open
        for n in self.real:
            setattr(os, n, self.wrap(n))

    def mine(self, path):
        return isinstance(path, (str, os.PathLike)) and os.path.abspath(path).startswith(self.root)

    def op(self, what, apply=None):
        """One operation; apply(part) makes a part of it happen."""
        if self.dead:
            raise SimCrash("dead")
        self.ops += 1
        self.w.ops += 1
        self.w.note("disk", n=self.ops, op=what)
        f = self.fault
        if not f or f.get("at") != self.ops:
            return True
        self.w.injected.append(({"crash": "crash", "full": "disk_full", "io": "disk_error"}[f["kind"]], self.ops, what))
        if apply:
            apply(f["keep"])
        if f["kind"] == "crash":
            self.dead = True
            raise SimCrash("killed in " + what)
        raise OSError(28 if f["kind"] == "full" else 5, "simulated " + f["kind"])

    def wrap(self, name):
        def call(path, *args, **kwargs):
            if self.mine(path):
                self.op(name)
            return self.real[name](path, *args, **kwargs)
        return call

    def sim_open(self, path, mode="r", *args, **kwargs):
        if not self.mine(path) or not any(c in mode for c in "wax+"):
            return self.open(path, mode, *args, **kwargs)
        self.op("open " + mode)
        return File(self, self.open(path, mode, *args, **kwargs))

    def restore(self):
        builtins.open = self.open
        for n, f in self.real.items():
            setattr(os, n, f)


class File(object):
    """A buffered file: what is written reaches the real file when it is flushed or closed."""

    def __init__(self, disk, f):
        self.disk, self.f, self.pending, self.closed = disk, f, [], False

    def write(self, data):
        self.pending.append(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        data = self.pending[0][:0].join(self.pending) if self.pending else b""
        self.pending = []
        if not data:
            return

        def part(keep):
            self.f.write(data[:int(keep * (len(data) + 1))])
            self.f.flush()
        self.disk.op("write", part)
        self.f.write(data)
        self.f.flush()

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            if not self.disk.dead:
                self.flush()
        finally:
            self.f.close()

    def __getattr__(self, name):
        self.flush()
        return getattr(self.f, name)

    def __iter__(self):
        return iter(self.f)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Session(object):
    """Stands for prompt_toolkit's session: loads the history when it starts, adds each entry to it."""
    script = None

    def __init__(self, *args, **kwargs):
        self.history = kwargs["history"]
        self.app = self.current_buffer = self
        self.text, self.n = "", 0
        try:
            self.script["loaded"] = list(self.history.load_history_strings())
        except OSError as e:
            self.script["load_error"] = str(e)

    def prompt(self, *args, **kwargs):
        entries = self.script["entries"]
        if self.n >= len(entries):
            if self.script["end"] == "kill":
                raise SimCrash("killed at the prompt")
            if self.script["end"] == "exit" and not self.script.get("exiting"):
                self.script["exiting"] = True
                self.history.append_string("exit")
                return "exit"
            self.script["ended"] = True
            raise EOFError()
        entry = entries[self.n]
        self.n += 1
        self.script["taken"] = self.n
        try:
            self.history.append_string(entry)
            self.script["stored"].append((entry, False))
        except BaseException:
            self.script["stored"].append((entry, True))
            raise
        return entry


def kept(entry):
    return entry.lower()[:4] != "exit"


def execute(plan):
    out = {"violations": [], "stats": {"sessions": 0, "entries": 0}}
    w = harness.world(plan, {})
    home = os.path.join(os.environ["HOME"], ".syncany")
    path = os.path.join(home, "history")
    model = []                      # entries, oldest first; (text, torn)
    if plan["old_file"]:
        os.mkdir(home)
        with open(path, "w") as f:
            for i in range(plan["old_file"]):
                f.write("\n%s+old %d\n" % ("" if plan["no_times"] else "# 2024-01-01 00:00:00.000001\n", i))
                model.append(("old %d" % i, False, False))
    e = harness.engine()
    os.system = lambda cmd: w.note("system", cmd=cmd)
    syncanysql.prompt.PromptSession = prompt_toolkit.PromptSession = Session
    disk = Disk(w, home)
    problem = None
    log = []
    try:
        for number, s in enumerate(plan["sessions"]):
            fault = s["fault"]
            disk.ops, disk.dead, disk.fault = 0, False, fault
            if fault:
                fault.setdefault("at", 1 + int(fault["frac"] * (3 if fault["early"] else 1 + 2 * len(s["entries"]))))
            script = Session.script = {"entries": s["entries"], "end": s["end"], "stored": []}
            crashed = False
            try:
                CliPrompt(e.manager, e.config.session(), e.executor).run()
            except SimCrash:
                crashed = True
            disk.fault = None
            out["stats"]["sessions"] += 1
            out["stats"]["entries"] += len(script["stored"])
            log.append("session %d: %d entries%s" % (number, len(script["stored"]), " fault %s" % fault if fault else ""))
            if not crashed and script.get("taken", 0) < len(s["entries"]):
                problem = "session %d ended after %d of %d entries" % (number, script.get("taken", 0), len(s["entries"]))
                break
            got = script.get("loaded")
            if got is None and not crashed and "load_error" not in script:
                problem = "session %d started without its history" % number
                break
            if got is not None:
                got = got[::-1]
                if not reconcile(model, got):
                    problem = "session %d was offered %s, entered before: %s" % (number, show(got), show([m[0] if not m[1] else "(torn) " + m[0] for m in model]))
                    break
                if len(got) > 50:
                    model = [(m[0], m[1], True) for m in model[:-50]] + model[-50:]     # may be gone now
            model += [(t, torn, False) for t, torn in script["stored"] if kept(t)]
    finally:
        disk.restore()
    if problem:
        out["violations"].append(violation("history_lost", problem + "\n  " + "; ".join(log)))
    w.note("history", n=len(model))
    out["nontrivial"] = out["stats"]["entries"] > 0
    out["sample"] = {"log": log[:4]}
    return out


def show(entries):
    return "%d entries, the last: %s" % (len(entries), [x[:60] for x in entries[-4:]])


def reconcile(model, got):
    """Whether got is a possible reading of the file: entries marked gone may be missing, torn ones may be missing or
    cut off, everything else must be there exactly and in order."""
    places = {len(model)}
    for text in reversed(got):
        found = set()
        for i in places:
            for k in range(i - 1, -1, -1):
                t, torn, gone = model[k]
                if text == t or torn and t.startswith(text.rstrip("\ufffd")):
                    found.add(k)
                if not torn and not gone:
                    break
        places = found
    return any(all(torn or gone for _, torn, gone in model[:i]) for i in places)


def shrink(plan):
    yield from harness.shrink_lists(plan, [("sessions",)] + [("sessions", i, "entries") for i in range(len(plan["sessions"]))])
    for i, s in enumerate(plan["sessions"]):
        if s["fault"]:
            p = copy.deepcopy(plan)
            p["sessions"][i]["fault"] = None
            yield p
    if plan["old_file"]:
        yield dict(copy.deepcopy(plan), old_file=None)
