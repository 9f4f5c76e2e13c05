"""C14: every statement sees the configuration of its scope: files, engine config, SET, USE, in their order of precedence."""
import copy
import json
import os
import sys

from .. import harness
from ..harness import violation

RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("configuration files in up to four places with extends, imports and executes, an engine config, and a history of SET, SET GLOBAL, USE, use() and nested files in an engine and its contexts, "
        "with restarts and unreadable files; statements read through the configured databases and imports, and what they read is compared with the reference configuration")
REAL = ["syncanysql config, executor, compiler, set, use and execute taskers, engine and contexts", "syncany core, its config readers and parsers", "file system (scratch directory)"]
STUB = ["storage servers (simulated driver, one server per value of its ns setting)", "open() of configuration files (injects I/O errors)"]
ASSUMPTIONS = ["within one script SET takes effect when the script is compiled (recorded finding), which for configuration is the order of the script",
               "of two files in one directory the YAML file overrides the JSON file, as the code has it; the documentation orders only the directories"]

DBS = ["d1", "d2", "d3"]
NS = ["n0", "n1", "n2", "n3"]
PLACES = ["home/config.json", "home/config.yaml", "cwd/config.json", "cwd/config.yaml"]


def layer(rng, inits, depth=0):
    out = {}
    if rng.random() < 0.8:
        out["databases"] = [dict({"name": d, "driver": "simdb"}, **({"ns": rng.choice(NS)} if rng.random() < 0.85 else {})) for d in rng.sample(DBS, rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.4:
        out["imports"] = {a: rng.choice(["m0", "m1", "m2"]) for a in rng.sample(["al", "am"], rng.choice([1, 2]))}
    if rng.random() < 0.3:
        inits[0] += 1
        out["executes"] = "i%d.sql" % inits[0] if rng.random() < 0.3 else ["i%d.sql" % inits[0]]
    if depth < 2 and rng.random() < 0.25:
        base = [layer(rng, inits, depth + 1) for _ in range(rng.choice([1, 1, 2]))]
        out["extends"] = [{"file": "base%d_%d.%s" % (rng.randrange(10 ** 6), i, rng.choice(["json", "yaml"])), "layer": b} for i, b in enumerate(base)]
        if len(base) == 1 and rng.random() < 0.4:
            out["extends"] = out["extends"][0]
    return out


def pick_op(rng, depth):
    roll = rng.random()
    if roll < 0.3:
        return {"op": "probe", "db": rng.choice(DBS)}
    if roll < 0.42:
        return {"op": "call", "al": rng.choice(["al", "am", "an", "fn"])}
    glob = rng.random() < 0.3
    prefix = rng.choice(["@config.", "@"])
    if roll < 0.56:
        return {"op": "set_db", "db": rng.choice(DBS), "ns": rng.choice(NS + [None]), "global": glob, "prefix": prefix}
    if roll < 0.66:
        return {"op": "set_ns", "db": rng.choice(DBS), "ns": rng.choice(NS), "global": glob, "prefix": prefix}
    if roll < 0.72:
        return {"op": rng.choice(["drop_db", "drop_ns"]), "db": rng.choice(DBS), "global": glob, "prefix": prefix}
    if roll < 0.8:
        return {"op": "use", "al": rng.choice(["al", "am", "an"]), "mod": rng.choice(["m0", "m1", "m2"])}
    if roll < 0.86:
        return {"op": "set_import", "al": rng.choice(["al", "am", "an"]), "mod": rng.choice(["m0", "m1", "m2", None]), "global": glob, "prefix": prefix}
    if depth < 2:
        return {"op": "file", "ops": [pick_op(rng, depth + 1) for _ in range(rng.choice([1, 2, 3]))]}
    return {"op": "probe", "db": rng.choice(DBS)}


def generate(rng, index, tier):
    inits, steps, contexts = [0], [], 0
    places = {p: layer(rng, inits) for p in PLACES if rng.random() < 0.4}
    for _ in range(rng.choice([2, 4, 6, 10, 14])):
        roll = rng.random()
        if roll < 0.12:
            contexts += 1
            steps.append({"step": "context"})
        elif roll < 0.2:
            steps.append({"step": "api_use", "scope": rng.randrange(4), "al": rng.choice(["al", "an", "fn"]), "what": rng.choice(["m0", "m1", "module m1", "module m2", "object"])})
        elif roll < 0.25:
            steps.append({"step": "restart", "rewrite": {p: layer(rng, inits) for p in PLACES if rng.random() < 0.2}, "broken": rng.random() < 0.4, "where": rng.random()})
        else:
            steps.append({"step": "script", "scope": rng.randrange(4), "ops": [pick_op(rng, 0) for _ in range(rng.choice([1, 1, 2, 3]))]})
    return {"places": places, "custom": layer(rng, inits, 2), "home_env": rng.random() < 0.2, "steps": steps,
            "storage": dict(harness.pick_storage(rng), shuffle=False)}


class Scope(object):
    def __init__(self, parent=None):
        self.parent, self.dbs, self.imports = parent, {}, {}

    def root(self):
        return self if self.parent is None else self.parent.root()

    def databases(self):
        out = {n: dict(d) for n, d in self.parent.databases().items()} if self.parent else {}
        for n, d in self.dbs.items():
            out.setdefault(n, {}).update(d)
        return out

    def import_of(self, alias):
        if self.imports.get(alias) is not None:
            return self.imports[alias]
        return self.parent.import_of(alias) if self.parent else None


class Fails(Exception):
    pass


def load(scope, inits, layer_):
    """What merging one layer (its extends first) does to the global scope."""
    extends = layer_.get("extends", [])
    for b in extends if isinstance(extends, list) else [extends]:
        load(scope, inits, b["layer"])
    for d in layer_.get("databases", []):
        scope.dbs.setdefault(d["name"], {}).update({k: v for k, v in d.items() if k != "name"})
    scope.imports.update(layer_.get("imports", {}))
    executes = layer_.get("executes", [])
    inits.extend(executes if isinstance(executes, list) else [executes])


def content(layer_, home, out, where):
    """The layer as the content of a file; the files it extends are added to out."""
    extends = layer_.get("extends")
    doc = {k: copy.deepcopy(v) for k, v in layer_.items() if k != "extends"}
    if extends:
        names = []
        for b in extends if isinstance(extends, list) else [extends]:
            path = os.path.join(where, b["file"])
            names.append(path)
            out[path] = content(b["layer"], home, out, where)
        doc["extends"] = names if isinstance(extends, list) else names[0]
    return doc


def yaml_text(doc, indent=""):
    text = ""
    for k, v in doc.items():
        if isinstance(v, dict):
            text += "%s%s:\n%s" % (indent, k, yaml_text(v, indent + "  ")) if v else "%s%s: {}\n" % (indent, k)
        elif isinstance(v, list):
            text += "%s%s: %s\n" % (indent, k, "[]" if not v else "")
            for item in v:
                if isinstance(item, dict):
                    lines = yaml_text(item, indent + "    ").split("\n")
                    lines[0] = indent + "  - " + lines[0].strip()
                    text += "\n".join(lines)
                else:
                    text += "%s  - %s\n" % (indent, json.dumps(item))
        else:
            text += "%s%s: %s\n" % (indent, k, json.dumps(v))
    return text


def render(op, files):
    k = op["op"]
    g = "global " if op.get("global") else ""
    if k == "probe":
        return "insert into s.log select 'p' as k, a.v as v from %s.t a where a.id=1" % op["db"]
    if k == "call":
        return "insert into s.log select 'c' as k, %s as v from s.one a" % (op["al"] + "()" if op["al"] == "fn" else op["al"] + "$who(1)")
    if k == "set_db":
        return "set %s%sdatabases.%s='%s'" % (g, op["prefix"], op["db"], json.dumps(dict({"driver": "simdb"}, **({"ns": op["ns"]} if op["ns"] else {}))))
    if k == "set_ns":
        return "set %s%sdatabases.%s.ns='%s'" % (g, op["prefix"], op["db"], json.dumps(op["ns"]))
    if k == "drop_db":
        return "set %s%sdatabases.%s=null" % (g, op["prefix"], op["db"])
    if k == "drop_ns":
        return "set %s%sdatabases.%s.ns=null" % (g, op["prefix"], op["db"])
    if k == "use":
        return "use `%s as %s`" % (op["mod"], op["al"])
    if k == "set_import":
        return "set %s%simports.%s=%s" % (g, op["prefix"], op["al"], "null" if op["mod"] is None else "'%s'" % op["mod"])
    name = "f%d.sql" % len(files)
    files.append(name)
    with open(name, "w") as fp:
        fp.write(";\n".join(render(o, files) for o in op["ops"]))
    return "execute `%s`" % name


def check_drivers(scope):
    if any("driver" not in d for d in scope.databases().values()):
        raise Fails()


def apply(op, scope, marks):
    """The reference: what compiling one statement does to the scopes, and what it will store."""
    k = op["op"]
    target = scope.root() if op.get("global") else scope
    if k in ("probe", "call"):
        check_drivers(scope)
        dbs = scope.databases()
        if k == "probe":
            if op["db"] not in dbs:
                raise Fails()
            ns = dbs[op["db"]].get("ns")
            marks.append(["p", ns or "plain"])
        else:
            m = scope.import_of(op["al"])
            if m is None:
                raise Fails()
            marks.append(["c", m])
    elif k == "set_db":
        target.dbs[op["db"]] = dict({"driver": "simdb"}, **({"ns": op["ns"]} if op["ns"] else {}))
    elif k == "set_ns":
        target.dbs.setdefault(op["db"], {})["ns"] = op["ns"]
    elif k == "drop_db":
        target.dbs.pop(op["db"], None)
    elif k == "drop_ns":
        target.dbs.setdefault(op["db"], {}).pop("ns", None)
    elif k == "use":
        scope.imports[op["al"]] = op["mod"]
    elif k == "set_import":
        target.imports[op["al"]] = op["mod"]
    else:
        child = Scope(scope)
        for o in op["ops"]:
            apply(o, child, marks)


class Counter(object):
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return "object"

    def who(self, *args):
        self.n += 1
        return "object"


def execute(plan):
    out = {"violations": [], "stats": {"steps": 0, "fails": 0}}
    tables = {"one": [{"id": 1}], "log": [], "t": [{"id": 1, "v": "plain"}]}
    tables.update({n + ":t": [{"id": 1, "v": n}] for n in NS})
    w = harness.world(plan, tables)
    sql = harness.preload()
    home = os.path.join(os.environ["HOME"], ".syncany")
    if plan["home_env"]:
        home = os.path.abspath("conf")
        os.environ["SYNCANY_HOME"] = home
    os.makedirs(home)
    for m in ("m0", "m1", "m2"):
        with open(os.path.join(home, m + ".py"), "w") as fp:
            fp.write("def who(*args):\n    return %r\n" % m)
    sys.path.append(home)
    custom = dict({k: v for k, v in plan["custom"].items() if k != "extends"})
    custom["databases"] = custom.get("databases", []) + [{"name": "s", "driver": "simdb"}]
    places = copy.deepcopy(plan["places"])
    files, problem, log = [], None, []
    counter = Counter()

    def write_files():
        texts = {}
        for p, layer_ in places.items():
            where = home if p.startswith("home") else os.getcwd()
            texts[os.path.join(where, p.split("/")[1])] = content(layer_, home, texts, where)
        for path, doc in texts.items():
            with open(path, "w") as fp:
                fp.write(yaml_text(doc) or "{}" if path.endswith("yaml") else json.dumps(doc))
        return sorted(texts)

    def start():
        root, inits = Scope(), []
        for p in PLACES:
            if p in places:
                load(root, inits, places[p])
        load(root, inits, custom)
        scopes = [Scope(root)]
        for n, i in enumerate(inits):
            # init files live in either place; the current directory goes first
            with open(os.path.join(home if n % 2 else ".", i), "w") as fp:
                fp.write("insert into s.log (k, v) values ('i', '%s')" % i)
        w.tables["log"] = []
        try:
            e = sql.ScriptEngine(copy.deepcopy(custom))
            e.setup()
        except Exception as ex:
            if any("driver" not in d for d in root.databases().values()):
                return None, scopes, "fails"
            return None, scopes, "the engine did not start: %s" % harness.err(ex)
        got = [[r["k"], r["v"]] for r in w.tables["log"]]
        if got != [["i", i] for i in inits]:
            return e, scopes, "init files ran as %s, should be %s" % ([g[1] for g in got], inits)
        return e, scopes, None

    paths = write_files()
    e, scopes, problem = start()
    targets = [e]
    for step in plan["steps"]:
        if problem:
            break
        out["stats"]["steps"] += 1
        if step["step"] == "context":
            scopes.append(Scope(scopes[0]))
            targets.append(e.context())
            continue
        if step["step"] == "restart":
            e.close()
            places.update(copy.deepcopy(step["rewrite"]))
            paths = write_files()
            if step["broken"] and paths:
                broken = paths[int(step["where"] * len(paths))]
                w.injected.append(("config_unreadable", len(log), broken))
                with open(broken, "rb") as fp:
                    saved = fp.read()
                os.remove(broken)
                os.mkdir(broken)
                try:
                    sql.ScriptEngine(copy.deepcopy(custom)).setup()
                    problem = "the engine started although %s cannot be read" % os.path.basename(broken)
                except Exception as ex:
                    w.note("broken", e=type(ex).__name__)
                os.rmdir(broken)
                with open(broken, "wb") as fp:
                    fp.write(saved)
            if not problem:
                e, scopes, problem = start()
                targets = [e]
                log.append("restart")
            continue
        at = step["scope"] % len(scopes)
        scope, target = scopes[at], targets[at]
        if step["step"] == "api_use":
            value = counter if step["what"] == "object" else __import__(step["what"][7:]) if step["what"].startswith("module") else step["what"]
            if step["al"] == "fn" and step["what"] != "object":
                continue
            target.use(step["al"], value)
            scope.imports[step["al"]] = step["what"].replace("module ", "")
            log.append("%d: use(%s, %s)" % (at, step["al"], step["what"]))
            continue
        text = ";\n".join(render(o, files) for o in step["ops"])
        marks, want_error = [], False
        try:
            for o in step["ops"]:
                apply(o, scope, marks)
        except Fails:
            marks, want_error = [], True
            out["stats"]["fails"] += 1
        log.append("%d: %s%s" % (at, text.replace("\n", " "), " %s" % json.dumps(step["ops"]) if "execute" in text else ""))
        w.tables["log"] = []
        error = None
        try:
            harness.run_sql(w, target, text)
        except Exception as ex:
            error = harness.err(ex)
        got = [[r.get("k"), r.get("v")] for r in w.tables["log"]]
        w.note("log", got=got)
        if want_error != (error is not None):
            problem = "it %s" % ("should fail and stored %s" % got if want_error else "failed: " + error)
        elif got != marks:
            problem = "it read %s, should read %s" % (got, marks)
    if problem == "fails":
        problem = None
    if e is not None:
        e.close()
    if problem:
        out["violations"].append(violation("wrong_config", "%s\n  files %s\n  engine config %s\n  %s" % (problem, json.dumps(places), json.dumps(custom), "\n  ".join(log))))
    out["nontrivial"] = len(log) > 0
    out["sample"] = {"log": log[:4]}
    return out


def shrink(plan):
    def paths(ops, prefix):
        yield prefix
        for i, o in enumerate(ops):
            if o["op"] == "file":
                yield from paths(o["ops"], prefix + (i, "ops"))
    lists = [("steps",)]
    for i, s in enumerate(plan["steps"]):
        if s["step"] == "script":
            lists += list(paths(s["ops"], ("steps", i, "ops")))
    yield from harness.shrink_lists(plan, lists)
    for p in list(plan["places"]):
        n = copy.deepcopy(plan)
        del n["places"][p]
        yield n
        for k in list(plan["places"][p]):
            n = copy.deepcopy(plan)
            del n["places"][p][k]
            yield n
    for k in list(plan["custom"]):
        n = copy.deepcopy(plan)
        del n["custom"][k]
        yield n
