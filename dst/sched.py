"""Deterministic scheduling of the threads of the code under test.

Exactly one thread runs at a time.  A running thread reaches a yield point
before every storage operation, at every sleep and at every traced source line
of the code under test; there a seeded generator decides whether another thread
goes on.  The decisions are recorded as {step: thread}, so a plan that carries
them replays (and shrinks) the same schedule.
"""
import random
import sys
import threading
import types

from .kernel import SimCrash


TOOL = 4


def codes_under(root):
    """Every function body of the loaded modules whose source lies under root (module bodies excluded)."""
    out, todo = {}, []
    for m in list(sys.modules.values()):
        if (getattr(m, "__file__", None) or "").startswith(root):
            todo.extend(vars(m).values())
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, type):
            if x.__module__.split(".")[0] == "syncanysql":
                todo.extend(vars(x).values())
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo.extend([x.fget, x.fset])
        elif isinstance(x, types.FunctionType):
            todo.append(x.__code__)
        elif isinstance(x, types.CodeType) and x.co_filename.startswith(root):
            out[(x.co_filename, x.co_firstlineno, x.co_name)] = x
            todo.extend(c for c in x.co_consts if isinstance(c, types.CodeType))
    return [out[k] for k in sorted(out)]


class Scheduler(object):
    def __init__(self, world, seed, rate, switches=None, root=None, lines=True):
        self.world = world
        self.rng = random.Random("sched/%s" % seed)
        self.rate = rate
        self.given = None if switches is None else {int(k): v for k, v in switches.items()}
        self.taken = {}
        self.step = 0
        self.root = root
        self.lines = lines
        self.names = []
        self.gates = {}
        self.alive = []
        self.current = None
        self.ops = {}
        self.errors = {}
        self.switches = 0
        self.local = threading.local()
        self.finished = threading.Semaphore(0)

    # -- called from simulated threads ---------------------------------------
    def me(self):
        return getattr(self.local, "name", None)

    def op(self):
        """Ordinal of the next storage operation of the running thread."""
        n = self.me() or "main"
        self.ops[n] = self.ops.get(n, 0) + 1
        return n, self.ops[n]

    def yield_point(self, kind):
        name = self.me()
        if name is None:
            return
        self.step += 1
        to = self.pick(name)
        if to is None or to == name:
            return
        self.switches += 1
        self.world.note("switch", at=self.step, to=to, on=kind)
        self.hand_over(to)
        self.gates[name].acquire()

    def pick(self, name, must=False):
        others = [n for n in self.alive if n != name]
        if not others:
            return None
        if self.given is not None:
            to = self.given.get(self.step)
            if to in others:
                self.taken[self.step] = to
                return to
            return others[0] if must else None
        if must:
            to = others[0] if self.rate == 0 else self.rng.choice(others)
            self.taken[self.step] = to
            return to
        if self.rate and self.rng.random() < self.rate:
            to = self.rng.choice(others)
            self.taken[self.step] = to
            return to
        return None

    def hand_over(self, to):
        self.current = to
        self.gates[to].release()

    def on_line(self, code, line):
        if self.world.scheduler is self:
            self.yield_point("line")

    # -- driver ---------------------------------------------------------------
    def run(self, bodies):
        """bodies: {name: callable}; returns {name: exception or None} when all have ended."""
        self.names = sorted(bodies)
        self.alive = list(self.names)
        self.gates = {n: threading.Semaphore(0) for n in self.names}
        self.world.scheduler = self
        threads, mon = [], sys.monitoring
        if self.lines:
            codes = codes_under(self.root)
            mon.use_tool_id(TOOL, "dst")
            mon.register_callback(TOOL, mon.events.LINE, self.on_line)
            for c in codes:
                mon.set_local_events(TOOL, c, mon.events.LINE)

        def body(name, fn):
            self.local.name = name
            self.gates[name].acquire()
            try:
                fn()
                self.errors[name] = None
            except SimCrash as e:
                self.errors[name] = e
            except BaseException as e:
                self.errors[name] = e
            self.step += 1
            to = self.pick(name, True)
            self.alive.remove(name)
            if to is None:
                self.finished.release()
            else:
                self.world.note("ended", who=name, to=to)
                self.hand_over(to)
        for n in self.names:
            t = threading.Thread(target=body, args=(n, bodies[n]), daemon=True)
            t.start()
            threads.append(t)
        first = self.names[0] if self.rate == 0 or self.given is not None else self.rng.choice(self.names)
        if self.given is not None and 0 in self.given:
            first = self.given[0]
        self.taken[0] = first
        self.hand_over(first)
        self.finished.acquire()
        for t in threads:
            t.join()
        self.world.scheduler = None
        if self.lines:
            for c in codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
        return self.errors
