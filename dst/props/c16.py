"""C16: functions of the current time follow the clock and the time zone, whatever the clock does."""
import calendar
import copy
import datetime
import os
import time

from .. import harness
from ..harness import violation

RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("scripts of statements with functions of the current time (and of times computed from it) in columns, conditions, derived tables and variables, at instants near midnight, month ends, leap days and "
        "zone transitions, in system and configured time zones, while storage latency, stalls and clock jumps move the clock; all values of a row must belong to one instant of its statement")
REAL = ["syncanysql clock and date functions, calculaters, compiler, executor, config", "syncany core"]
STUB = ["wall clock (virtual, preloaded into the process)", "storage server (simulated driver)"]
ASSUMPTIONS = ["the clock stands still between storage operations, so everything evaluated between two of them sees one instant",
               "date arithmetic is on the wall time of the zone, as the code has it", "${} and SET are evaluated when the script is compiled"]

ZONES = ["UTC", "Asia/Shanghai", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Asia/Kathmandu", "America/St_Johns"]
UTC = datetime.timezone.utc
DAYS = ["2024-02-29", "2024-12-31", "2025-01-01", "2024-11-15", "2024-11-30", "2023-03-31", "2024-03-10", "2024-11-03", "2024-03-31", "2024-10-27", "2024-04-06", "2023-02-28", "2000-02-29", "2024-08-31",
        "1999-12-31", "2038-01-19", "2024-07-04"]
UNITS = ["year", "quarter", "month", "week", "day", "hour", "minute", "second", "microsecond"]


def pick_expr(rng, tz_of):
    k = rng.choice(["now", "now", "date", "time", "unix", "unix_now", "from_unix", "unix_from", "unix_text", "part", "part", "add", "add", "add", "addday", "format", "utc", "midnight", "text", "sub_date"])
    e = {"k": k}
    if k == "now":
        e["f"] = rng.choice(["now()", "current_timestamp()", "current_timestamp", "sysdate()"])
    elif k == "date":
        e["f"] = rng.choice(["curdate()", "current_date()", "current_date", "date(now())"])
    elif k == "time":
        e["f"] = rng.choice(["curtime()", "current_time()", "time(now())"])
    elif k == "part":
        e["f"] = rng.choice(["year", "month", "dayofmonth", "dayofyear", "weekday"])
        e["of"] = rng.choice(["now()", "curdate()"])
    elif k == "add":
        e.update(n=rng.choice([0, 1, 1, 2, 3, 7, 11, 12, 13, 25, 40, 100]), unit=rng.choice(UNITS), how=rng.choice(["date_add", "date_sub", "+", "-", "adddate", "subdate"]))
    elif k == "addday":
        e.update(n=rng.choice([0, 1, 31, 366]), how=rng.choice(["adddate", "subdate"]))
    elif k in ("from_unix", "unix_from"):
        e["n"] = rng.choice([0, 1, 1700000000, 951782399, 1710054000, 1730613600, rng.randrange(2 ** 31)])
    elif k in ("unix_text", "text"):
        e["t"] = "%s %02d:%02d:%02d" % (rng.choice(DAYS), rng.randrange(5, 24), rng.randrange(60), rng.randrange(60))
    elif k == "utc":
        e["f"] = rng.choice(["utc_date()", "utc_time()", "utc_timestamp()"])
    elif k == "midnight":
        e["f"] = rng.choice(["datetime(curdate())", "unix_timestamp(curdate())"])
    return e


def generate(rng, index, tier):
    system, conf = rng.choice(ZONES), rng.choice([None, None] + ZONES)
    day = datetime.datetime.strptime(rng.choice(DAYS), "%Y-%m-%d").replace(tzinfo=UTC)
    start = int(day.timestamp()) + rng.choice([0, 86399, 3600 * 7 - 1, 3600 * 6 - 1, 5 * 3600 - 1, 16 * 3600 - 2, rng.randrange(-43200, 86400)])
    n = rng.choice([1, 2, 3, 5])
    statements = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        statements.append({"exprs": [pick_expr(rng, conf or system) for _ in range(rng.choice([1, 2, 4]))], "shape": rng.choice(["plain", "plain", "plain", "derived", "union", "into", "agg"]),
                           "where": rng.choice([None, None, None, {"op": rng.choice(["<=", "<", ">", ">="]), "f": rng.choice(["unix_timestamp()", "unix_timestamp(now())"])}])})
    faults = [{"at": rng.randrange(1, 12), "kind": rng.choice(["stall", "clock"]), "seconds": rng.choice([1, 3600, 86400, 40 * 86400, -1, -3600, -86400, -400 * 86400])} for _ in range(rng.choice([0, 1, 2]))]
    for f in faults:
        if f["kind"] == "stall":
            f["seconds"] = abs(f["seconds"])
    return {"system": system, "conf": conf, "start_ns": start * 10 ** 9 + rng.randrange(10 ** 6) * 1000, "offsets": [rng.choice([-10 ** 7, -3600, -1, 0, 1, 2, 3600, 86400, 10 ** 7]) for _ in range(n)],
            "statements": statements, "faults": faults, "session": harness.pick_session(rng, n, 0.4), "one_script": rng.random() < 0.5, "storage": harness.pick_storage(rng)}


def add_units(dt, n, unit):
    if unit in ("year", "quarter", "month"):
        year, month = divmod(dt.year * 12 + dt.month - 1 + n * {"year": 12, "quarter": 3, "month": 1}[unit], 12)
        return dt.replace(year=year, month=month + 1, day=min(dt.day, calendar.monthrange(year, month + 1)[1]))
    return dt + datetime.timedelta(**{unit + "s": n})


def text_of(e):
    k = e["k"]
    if k in ("now", "date", "time", "utc", "midnight"):
        return e["f"]
    if k == "unix":
        return "unix_timestamp()"
    if k == "unix_now":
        return "unix_timestamp(now())"
    if k == "from_unix":
        return "from_unixtime(%d)" % e["n"]
    if k == "unix_from":
        return "unix_timestamp(from_unixtime(%d))" % e["n"]
    if k == "unix_text":
        return "unix_timestamp('%s')" % e["t"]
    if k == "text":
        return "datetime('%s')" % e["t"]
    if k == "part":
        return "%s(%s)" % (e["f"], e["of"])
    if k == "add":
        if e["how"] in "+-":
            return "now() %s interval %d %s" % (e["how"], e["n"], e["unit"])
        return "%s(now(), interval %d %s)" % (e["how"], e["n"], e["unit"])
    if k == "addday":
        return "%s(now(), %d)" % (e["how"], e["n"])
    if k == "sub_date":
        return "unix_timestamp(now() - interval 1 day)"
    return "date_format(now(), '%Y-%m-%d %H:%M:%S')"


def wall(dt):
    utc = dt.astimezone(UTC)
    return ("dt", utc.isoformat(), utc.astimezone(dt.tzinfo).utcoffset().total_seconds())


def value(e, now, tz):
    """The reference value at the instant now (aware, in tz)."""
    k = e["k"]
    if k == "now":
        return wall(now)
    if k == "date":
        return ("d", now.date().isoformat())
    if k == "time":
        return ("t", now.time().isoformat())
    if k in ("unix", "unix_now"):
        return int((now - datetime.datetime(1970, 1, 1, tzinfo=UTC)) // datetime.timedelta(seconds=1))
    if k in ("from_unix", "unix_from"):
        return e["n"] if k == "unix_from" else wall(datetime.datetime.fromtimestamp(e["n"], UTC).astimezone(tz))
    if k in ("unix_text", "text"):
        dt = datetime.datetime.strptime(e["t"], "%Y-%m-%d %H:%M:%S").replace(tzinfo=tz)
        return int(dt.timestamp()) if k == "unix_text" else wall(dt)
    if k == "part":
        return {"year": now.year, "month": now.month, "dayofmonth": now.day, "dayofyear": now.timetuple().tm_yday, "weekday": now.weekday()}[e["f"]]
    if k == "add":
        return wall(add_units(now, -e["n"] if e["how"] in ("date_sub", "-", "subdate") else e["n"], e["unit"]))
    if k == "addday":
        return wall(now + datetime.timedelta(days=e["n"] if e["how"] == "adddate" else -e["n"]))
    if k == "utc":
        u = now.astimezone(UTC)
        return {"utc_date()": ("d", u.date().isoformat()), "utc_time()": ("t", u.time().isoformat()), "utc_timestamp()": wall(u)}[e["f"]]
    if k == "midnight":
        m = datetime.datetime(now.year, now.month, now.day, tzinfo=tz)
        return wall(m) if e["f"].startswith("datetime") else int(m.timestamp())
    if k == "sub_date":
        return int((now - datetime.timedelta(days=1)).timestamp())
    return now.strftime("%Y-%m-%d %H:%M:%S")


def observed(v):
    if isinstance(v, datetime.datetime):
        return wall(v) if v.tzinfo else ("naive", v.isoformat())
    if isinstance(v, datetime.date):
        return ("d", v.isoformat())
    if isinstance(v, datetime.time):
        return ("t", v.replace(tzinfo=None, fold=0).isoformat())
    return v


def same(e, got, want):
    if e["k"] == "utc" and isinstance(want, tuple) and want[0] == "dt":
        return isinstance(got, tuple) and got[:2] == want[:2]          # the zone it is shown in depends on the way it took
    return got == want


def execute(plan):
    from zoneinfo import ZoneInfo
    out = {"violations": [], "stats": {"rows": 0, "instants": 0}}
    os.environ["TZ"] = plan["system"]
    time.tzset()
    tz = ZoneInfo(plan["conf"] or plan["system"])
    start = plan["start_ns"] // 10 ** 9
    rows = [{"id": i + 1, "ts": start + o} for i, o in enumerate(plan["offsets"])]
    tables = {"t": rows}
    tables.update({"out%d" % i: [] for i in range(len(plan["statements"]))})
    w = harness.world(plan, tables)
    history = [w.now_ns]
    apply_clock = w.apply_clock

    def moved():
        history.append(w.now_ns)
        apply_clock()
    w.apply_clock = moved
    config = copy.deepcopy(harness.CONFIG)
    if plan["conf"]:
        config["timezone"] = plan["conf"]
    e = harness.engine(config)
    harness.set_session(e, plan["session"])
    texts = []
    for n, s in enumerate(plan["statements"]):
        cols = ", ".join("%s as c%d" % (text_of(x), i) for i, x in enumerate(s["exprs"]))
        where = " where a.ts %s %s" % (s["where"]["op"], s["where"]["f"]) if s["where"] else ""
        if s["shape"] == "derived":
            q = "select q.id as id, %s from (select a.id as id, %s from s.t a%s) q" % (", ".join("q.c%d as c%d" % (i, i) for i in range(len(s["exprs"]))), cols, where)
        elif s["shape"] == "union":
            q = "select a.id as id, %s from s.t a%s union all select 99 as id, %s" % (cols, where, cols)
        elif s["shape"] == "agg":
            q = "select a.id as id, %s from s.t a%s group by a.id" % (", ".join("max(%s) as c%d" % (text_of(x), i) for i, x in enumerate(s["exprs"])), where)
        else:
            q = "select a.id as id, %s from s.t a%s" % (cols, where)
        if s["shape"] == "into":
            texts.append("select %s into @v%d from s.t a where a.id=1" % (cols, n))
        else:
            texts.append("insert into s.out%d %s" % (n, q))
    begins, ends = [], {}            # where in the clock's history each statement begins and ends

    def listener(ev):
        if ev["k"] == "op" and ev["op"] == "insert" and ev["t"].startswith("out"):
            ends[int(ev["t"][3:])] = len(history)
    w.listeners.append(listener)
    problem = None
    try:
        if plan["one_script"]:
            harness.run_sql(w, e, ";\n".join(texts))
        else:
            for n, t in enumerate(texts):
                begins.append(len(history) - 1)
                harness.run_sql(w, e, t)
                ends.setdefault(n, len(history))
    except Exception as ex:
        problem = "failed: " + harness.err(ex)
    last = 0
    for n, s in enumerate(plan["statements"]):
        if problem:
            break
        begin = last if plan["one_script"] else begins[n]
        end = ends.get(n, len(history))
        window = sorted(set(history[begin:max(end, begin + 1)]))
        if n in ends:
            last = max(last, end - 1)            # a statement that inserted nothing does not show where it ended
        instants = [(datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(microseconds=ns // 1000)).astimezone(tz) for ns in window]
        out["stats"]["instants"] += len(window)
        if s["shape"] == "into":
            v = e.get_variable("@v%d" % n)
            got = [v if len(s["exprs"]) > 1 else {"c0": v}]
            got = [dict(g, id=1) if isinstance(g, dict) else g for g in got]
        else:
            got = w.tables["out%d" % n]
        found = [[r["id"]] + [observed(r.get("c%d" % i)) for i in range(len(s["exprs"]))] for r in got]
        harness.saw(w, found)
        out["stats"]["rows"] += len(found)
        for r in found:
            if not any(all(same(x, r[1 + i], value(x, now, tz)) for i, x in enumerate(s["exprs"])) for now in instants):
                problem = "a row of %s has %s; at %s it would be %s" % (
                    texts[n], r, ", ".join(i.isoformat() for i in instants[:3]), [value(x, instants[0], tz) for x in s["exprs"]])
                break
        if not problem and s["shape"] != "into":
            ids = sorted(r[0] for r in found)
            extra = [99] if s["shape"] == "union" else []
            wants = []
            for ns in window:
                sec = ns // 10 ** 9
                ok = {"<=": lambda t: t <= sec, "<": lambda t: t < sec, ">": lambda t: t > sec, ">=": lambda t: t >= sec}
                wants.append(sorted([r["id"] for r in rows if not s["where"] or ok[s["where"]["op"]](r["ts"])] + extra))
            if ids not in wants:
                problem = "%s gave the rows %s, should give %s" % (texts[n], ids, wants[0])
        if len(window) > 1:
            w.reach.add("clock_moved_within_a_statement")
    e.close()
    if problem:
        out["violations"].append(violation("wrong_time", "%s\n  TZ=%s timezone=%s start=%s offsets %s session %s one_script=%s\n  %s\n  faults %s" % (
            problem, plan["system"], plan["conf"], datetime.datetime.fromtimestamp(start, UTC).isoformat(), plan["offsets"], plan["session"], plan["one_script"], "; ".join(texts), w.injected)))
    out["nontrivial"] = out["stats"]["rows"] > 0
    out["sample"] = {"sql": texts, "tz": [plan["system"], plan["conf"]]}
    return out


def shrink(plan):
    yield from harness.shrink_lists(plan, [("statements",)], 1)
    yield from harness.shrink_lists(plan, [("faults",)])
    yield from harness.shrink_lists(plan, [("offsets",)], 1)
    for i, s in enumerate(plan["statements"]):
        yield from harness.shrink_lists(plan, [("statements", i, "exprs")], 1)
        for key, v in (("shape", "plain"), ("where", None)):
            if s[key] != v:
                p = copy.deepcopy(plan)
                p["statements"][i][key] = v
                yield p
    for key, v in (("session", {}), ("conf", None), ("system", "UTC")):
        if plan[key] != v:
            yield dict(copy.deepcopy(plan), **{key: v})
