"""A storage server under simulator control, reached through the public driver
interface (register_database), the same one a user's own driver uses.

Personality (plan["storage"]):
  hold      "op": a connection is taken per operation; "close": kept until close()
  buffered  writes reach the server on flush()/close() only, or ("close") on close() only
  cursor    "offset" or "keyset" (keyset only when the caller says the primary
            order covers the cursor, as the bundled SQL drivers do)
  shuffle   an unordered scan returns rows in a fixed arbitrary order
"""
import copy
import datetime
import decimal

from syncany.database.database import (Cmper, DataBase, DatabaseFactory, DeleteBuilder, InsertBuilder,
                                       QueryBuilder, UpdateBuilder)

from .kernel import SimCrash, StorageError, World

_OPS = {"gt": Cmper.cmp_gt, "gte": Cmper.cmp_gte, "lt": Cmper.cmp_lt, "lte": Cmper.cmp_lte,
        "eq": Cmper.cmp_eq, "ne": Cmper.cmp_ne, "in": Cmper.cmp_in}


def coerce(cell, value):
    """What a server compares a typed column with: texts are read as dates, dates next to times are midnight."""
    if isinstance(value, list):
        return cell, value
    for a, b in ((cell, value), (value, cell)):
        if isinstance(a, datetime.date) and isinstance(b, str):
            try:
                parsed = datetime.datetime.fromisoformat(b.strip())
            except ValueError:
                return cell, value
            return (moment(cell), parsed) if a is cell else (parsed, moment(value))
    if isinstance(cell, datetime.date) and isinstance(value, datetime.date):
        return moment(cell), moment(value)
    if isinstance(cell, decimal.Decimal) and isinstance(value, (int, float)):
        return float(cell), value
    return cell, value


def holds(op, cell, value):
    cell, value = coerce(cell, value)
    if isinstance(cell, (int, float)) and isinstance(value, (int, float)):
        return {"gt": cell > value, "gte": cell >= value, "lt": cell < value, "lte": cell <= value, "eq": cell == value, "ne": cell != value}[op]
    return _OPS[op](cell, value)


def moment(value):
    if isinstance(value, datetime.datetime):
        return value.replace(tzinfo=None)
    return datetime.datetime(value.year, value.month, value.day)


def cell_of(row, key):
    """(found, value) of a column, or of a nested column the way document stores name it."""
    if key in row:
        return True, row[key]
    for part in key.split("."):
        if not isinstance(row, dict) or part not in row:
            return False, None
        row = row[part]
    return True, row


class _Filters(object):
    def _add(self, op, key, value):
        if op == "in" and not isinstance(value, (list, tuple, set)):
            value = [value]
        self.query.append((key, op, list(value) if op == "in" else value))

    def filter_gt(self, key, value):
        self._add("gt", key, value)

    def filter_gte(self, key, value):
        self._add("gte", key, value)

    def filter_lt(self, key, value):
        self._add("lt", key, value)

    def filter_lte(self, key, value):
        self._add("lte", key, value)

    def filter_eq(self, key, value):
        self._add("eq", key, value)

    def filter_ne(self, key, value):
        self._add("ne", key, value)

    def filter_in(self, key, value):
        self._add("in", key, value)

    def matches(self, row):
        for key, op, value in self.query:
            found, cell = cell_of(row, key)
            if not found:
                return False
            if cell is None and op != "eq" and op != "in":
                return False
            if op == "in":
                if not any(holds("eq", cell, v) for v in value):
                    return False
            elif not holds(op, cell, value):
                return False
        return True


def _sort_key(value):
    if value is None:
        return (0, 0)
    if isinstance(value, bool):
        return (1, int(value))
    if isinstance(value, (int, float)):
        return (1, value)
    return (2, str(value))


class _Op(object):
    def enter(self):
        world = World.current
        if self.db.epoch != world.epoch:
            raise SimCrash("this process died")
        driver = self.db.acquire_driver()
        cid = driver.raw()
        state = world.conns[cid]
        if not state["open"]:
            world.note("use_after_close", c=cid, t=self.name)
        if state["busy"]:
            world.note("shared_connection", c=cid, t=self.name)
        state["busy"] = True
        return world, cid

    def leave(self, world, cid):
        world.conns[cid]["busy"] = False
        if world.storage.get("hold", "op") == "op":
            self.db.release_driver()


class SimQueryBuilder(_Filters, _Op, QueryBuilder):
    def __init__(self, *args, **kwargs):
        super(SimQueryBuilder, self).__init__(*args, **kwargs)
        self.cursor = None

    def filter_limit(self, count, start=None):
        self.limit = (start or 0, count)

    def filter_cursor(self, last_data, offset, count, primary_orders=None):
        world = World.current
        if world.storage.get("cursor") == "keyset" and primary_orders and last_data \
                and all(pk in last_data for pk in self.primary_keys):
            self.cursor = (last_data, primary_orders)
            self.limit = (0, count)
        else:
            self.limit = (offset, count)

    def order_by(self, key, direct=1):
        self.orders.append((key, direct))

    def commit(self):
        world, cid = self.enter()
        try:
            name = self.name.split(".", 1)[1]
            fault = world.begin_op("query", name)
            stream = world.streams.get(name)
            if stream is not None:
                rows = stream.poll(self, world)
            else:
                rows = self.db.view(name)
                if world.storage.get("shuffle") and not self.orders:
                    order = world.scan_order.setdefault(name, {})
                    rows = sorted(rows, key=lambda r: order.setdefault(id(r), world.scan.random()))
                rows = [r for r in rows if self.matches(r)]
                for key, direct in reversed(self.orders):
                    rows = sorted(rows, key=lambda r: _sort_key(cell_of(r, key)[1]), reverse=direct < 0)
                if self.cursor:
                    last, orders = self.cursor
                    for pk in self.primary_keys:
                        op = "lt" if orders.get(pk, 1) < 0 else "gt"
                        rows = [r for r in rows if _OPS[op](r.get(pk), last[pk])]
                if self.limit:
                    rows = rows[self.limit[0]: self.limit[0] + self.limit[1]]
            out = [copy.deepcopy(r) for r in rows]
            # a server returns only the columns that were asked for
            if self.fields and world.storage.get("project", True):
                wanted = set(f.split(".")[0] for f in self.fields) | set(self.primary_keys)
                out = [{k: v for k, v in r.items() if k in wanted} for r in out]
            world.end_op(fault, "query", name)
            world.trace[-1]["got"] = len(out)
            return out
        finally:
            self.leave(world, cid)


class SimInsertBuilder(_Op, InsertBuilder):
    def commit(self):
        world, cid = self.enter()
        try:
            name = self.name.split(".", 1)[1]
            datas = self.datas if isinstance(self.datas, list) else [self.datas]
            fault = world.begin_op("insert", name, len(datas))
            rows = [dict(copy.deepcopy(d)) for d in datas]
            if fault is not None and fault["kind"] in ("torn", "full"):
                keep = int(fault.get("keep", 0)) % (len(rows) + 1) if rows else 0
                self.db.apply("insert", name, rows[:keep])
                world.injected.append((fault["kind"], fault["at"], "insert"))
                raise StorageError("simulated %s insert into %s: %d of %d rows" %
                                   (fault["kind"], name, keep, len(rows)))
            self.db.apply("insert", name, rows)
            world.end_op(fault, "insert", name)
        finally:
            self.leave(world, cid)


class SimUpdateBuilder(_Filters, _Op, UpdateBuilder):
    def commit(self):
        world, cid = self.enter()
        try:
            name = self.name.split(".", 1)[1]
            fault = world.begin_op("update", name)
            update = copy.deepcopy(dict(self.update))
            self.db.apply("update", name, (self.matches, update))
            world.end_op(fault, "update", name)
        finally:
            self.leave(world, cid)


class SimDeleteBuilder(_Filters, _Op, DeleteBuilder):
    def commit(self):
        world, cid = self.enter()
        try:
            name = self.name.split(".", 1)[1]
            fault = world.begin_op("delete", name)
            self.db.apply("delete", name, self.matches)
            world.end_op(fault, "delete", name)
        finally:
            self.leave(world, cid)


class SimFactory(DatabaseFactory):
    def create(self):
        return World.current.connect()

    def ping(self, driver):
        return World.current.conns[driver.instance]["open"]

    def close(self, driver):
        World.current.disconnect(driver.instance)


class SimDB(DataBase):
    def __init__(self, manager, config):
        super(SimDB, self).__init__(manager, dict(**config))
        self.pending = []
        self.ns = str(config["ns"]) + ":" if config.get("ns") is not None else ""     # which server this is
        self.epoch = World.current.epoch     # writes buffered by a process that died are lost

    def get_config_key(self):
        return super(SimDB, self).get_config_key() + "::" + self.ns

    def build_factory(self):
        return SimFactory(self.get_config_key(), self.config)

    def acquire_driver(self):
        world = World.current
        fresh = self.database_driver is None
        driver = super(SimDB, self).acquire_driver()
        if fresh:
            world.note("acquire", c=driver.raw())
        return driver

    def release_driver(self):
        if self.database_driver:
            World.current.note("release", c=self.database_driver.raw())
        super(SimDB, self).release_driver()

    def query(self, name, primary_keys=None, fields=()):
        return SimQueryBuilder(self, name, primary_keys, fields)

    def insert(self, name, primary_keys=None, fields=(), datas=None):
        return SimInsertBuilder(self, name, primary_keys, fields, datas)

    def update(self, name, primary_keys=None, fields=(), update=None, diff_data=None):
        return SimUpdateBuilder(self, name, primary_keys, fields, update, diff_data)

    def delete(self, name, primary_keys=None):
        return SimDeleteBuilder(self, name, primary_keys)

    def view(self, name):
        name = self.ns + name
        rows = World.current.tables.get(name, [])
        for kind, table, arg in self.pending:
            if table == name:
                rows = _applied(rows, kind, arg)
        return rows

    def apply(self, kind, name, arg):
        world = World.current
        name = self.ns + name
        if world.storage.get("buffered"):
            self.pending.append((kind, name, arg))
            return
        world.tables[name] = _applied(world.tables.get(name, []), kind, arg)

    def flush(self, closing=False):
        world = World.current
        if not self.pending or self.epoch != world.epoch:
            return
        if world.storage["buffered"] == "close" and not closing:
            return
        fault = world.begin_op("flush", self.name)
        pending, self.pending = self.pending, []
        for kind, name, arg in pending:
            world.tables[name] = _applied(world.tables.get(name, []), kind, arg)
        world.end_op(fault, "flush", self.name)

    def close(self):
        try:
            self.flush(True)
        finally:
            super(SimDB, self).close()

    def is_dynamic_schema(self, name):
        return False

    def is_streaming(self, name):
        table = name.split(".", 1)[1] if "." in name else name
        stream = World.current.streams.get(table)
        if stream is not None:
            return stream.is_open(World.current)
        return super(SimDB, self).is_streaming(name)


def _applied(rows, kind, arg):
    if kind == "insert":
        return list(rows) + [dict(r) for r in arg]
    if kind == "update":
        matches, update = arg
        out = []
        for r in rows:
            if matches(r):
                r = dict(r)
                r.update(copy.deepcopy(update))
            out.append(r)
        return out
    return [r for r in rows if not arg(r)]
