"""The simulated world: virtual clock, storage servers, fault plan, trace.

One `World` exists per simulated run.  Everything the code under test can
observe that is not its own computation goes through it: wall clock, unique
ids, storage operations, connections, sleeping.  A run is a pure function of
its plan (a JSON document), so a plan is also the replay file.
"""
import ctypes
import hashlib
import json
import os
import random
import sys

BASE_TIME_NS = 1700000000 * 10 ** 9      # 2023-11-14T22:13:20Z


class SimCrash(BaseException):
    """The process dies here: nothing after this point runs, only durable state survives."""


class StorageError(Exception):
    """What a storage driver raises: connection lost, disk error, constraint, ..."""


class Livelock(BaseException):
    """The run exceeded its bound on simulated operations."""


class World(object):
    current = None

    def __init__(self, plan):
        self.plan = plan
        self.now_ns = int(plan.get("start_ns", BASE_TIME_NS))
        self.start_ns = self.now_ns
        self.elapsed_ns = 0
        self.tables = {}                 # table name -> list of rows (durable)
        self.trace = []                  # every event of the run, in order
        self.ops = 0
        self.max_ops = int(plan.get("max_ops", 20000))
        self.faults = {int(f["at"]): f for f in plan.get("faults", [])}
        self.thread_faults = {(f["thread"], int(f["at"])): f for f in plan.get("thread_faults", [])}
        self.injected = []               # faults that actually fired
        self.storage = plan.get("storage", {})
        self.conns = {}                  # conn id -> {"open":bool,"busy":bool}
        self.conn_seq = 0
        self.streams = {}                # table -> arrival schedule
        self.listeners = []              # callables(event)
        self.points = 0
        self.clock_lib = _clock_lib()
        self.apply_clock()
        self.ids = random.Random(int(plan.get("id_seed", 0)))
        self.scan = random.Random(int(plan.get("scan_seed", 0)))
        self.scan_order = {}
        self.scheduler = None
        self.epoch = 0                   # number of restarts of the process
        self.dead = False                # after a crash nothing of this process reaches the storage any more
        self.user_call = lambda *args: args[0] if args else None
        self.probe = None                # called before each op with the op ordinal
        self.reach = set()               # rare conditions this run went through
        World.current = self

    # -- clock ------------------------------------------------------------
    def apply_clock(self):
        if self.clock_lib is not None:
            self.clock_lib.simclock_set(self.now_ns)

    def advance(self, seconds):
        ns = int(seconds * 10 ** 9)
        self.now_ns += ns
        if ns > 0:
            self.elapsed_ns += ns
        self.apply_clock()

    def jump(self, seconds):
        self.now_ns += int(seconds * 10 ** 9)
        self.apply_clock()

    # -- trace ------------------------------------------------------------
    def note(self, kind, **kw):
        kw["k"] = kind
        self.trace.append(kw)
        for listener in self.listeners:
            listener(kw)
        return kw

    def digest(self):
        return hashlib.sha256(json.dumps(self.trace, sort_keys=True, default=repr).encode()).hexdigest()[:16]

    # -- storage operations ------------------------------------------------
    def begin_op(self, op, table, rows=0):
        """Every storage operation of the code under test passes here once."""
        if self.dead:
            raise SimCrash("the process is dead")
        self.ops += 1
        at = self.ops
        if self.ops > self.max_ops:
            raise Livelock("more than %d storage operations" % self.max_ops)
        who = None
        if self.scheduler is not None:
            self.scheduler.yield_point("op")
            who = self.scheduler.op()
        if self.probe is not None:
            self.probe(at, op, table)
        lat = self.storage.get("latency_ms", 0)
        if lat:
            self.advance(((at * 7919) % (lat + 1)) / 1000.0)
        fault = self.faults.get(at)
        if who is not None:
            fault = self.thread_faults.get(who)
        ev = self.note("op", n=at, op=op, t=table, rows=rows)
        if who is not None:
            ev["by"] = who[0]
        if fault is not None and fault["kind"] == "stall":
            self.injected.append(("stall", at, op))
            self.advance(float(fault.get("seconds", 30)))
            fault = None
        if fault is not None and fault["kind"] == "clock":
            self.injected.append(("clock_jump", at, op))
            self.jump(float(fault.get("seconds", 0)))
            fault = None
        if fault is not None:
            ev["fault"] = fault["kind"]
            if fault["kind"] == "error":
                self.injected.append(("error_before", at, op))
                raise StorageError("simulated failure before %s on %s (op %d)" % (op, table, at))
            if fault["kind"] == "crash":
                self.injected.append(("crash_before", at, op))
                self.dead = True
                raise SimCrash("crash before op %d" % at)
            if fault["kind"] == "interrupt":
                self.injected.append(("interrupt", at, op))
                raise KeyboardInterrupt()
        return fault

    def end_op(self, fault, op, table):
        """Faults that hit after the operation took effect (lost acknowledgement)."""
        if fault is None:
            return
        if fault["kind"] == "lost_ack":
            self.injected.append(("lost_ack", fault["at"], op))
            raise StorageError("simulated lost acknowledgement of %s on %s (op %s)" % (op, table, fault["at"]))
        if fault["kind"] == "crash_after":
            self.injected.append(("crash_after", fault["at"], op))
            self.dead = True
            raise SimCrash("crash after op %s" % fault["at"])

    def restart(self):
        """A new process: whatever the old one still holds cannot reach the storage any more."""
        self.epoch += 1
        self.dead = False
        self.faults = {}
        self.note("restart")

    # -- connections -------------------------------------------------------
    def connect(self):
        self.conn_seq += 1
        self.conns[self.conn_seq] = {"open": True, "busy": False, "owner": None}
        self.note("connect", c=self.conn_seq)
        return self.conn_seq

    def disconnect(self, cid):
        self.conns[cid]["open"] = False
        self.note("disconnect", c=cid)

    def open_connections(self):
        return [c for c, s in self.conns.items() if s["open"]]


_lib = [False, None]


def _clock_lib():
    if not _lib[0]:
        _lib[0] = True
        path = os.environ.get("SIMCLOCK_LIB")
        if path and path in os.environ.get("LD_PRELOAD", ""):
            lib = ctypes.CDLL(path)
            lib.simclock_set.argtypes = [ctypes.c_int64]
            lib.simclock_get.restype = ctypes.c_int64
            lib.simclock_reads.restype = ctypes.c_int64
            _lib[1] = lib
    return _lib[1]


def install_process_seams():
    """Once per worker process, before the code under test is imported."""
    import time
    import uuid
    # unique ids come from the pure-python generator over the virtual clock and a seeded PRNG
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    uuid.getnode = lambda: 0x0242ac110002
    uuid._node = 0x0242ac110002

    real_sleep = time.sleep

    def sleep(seconds):
        w = World.current
        if w is None:
            return real_sleep(seconds)
        w.note("sleep", s=seconds)
        w.advance(seconds)
        if w.scheduler is not None:
            w.scheduler.yield_point("sleep")
    time.sleep = sleep
    real_urandom = os.urandom

    def urandom(n):
        w = World.current
        if w is None:
            return real_urandom(n)
        return bytes(w.ids.getrandbits(8) for _ in range(n))
    os.urandom = urandom


def reset_run_seams(plan):
    import uuid
    uuid._last_timestamp = None
    random.seed(int(plan.get("id_seed", 0)))
    sys.setrecursionlimit(3000)
