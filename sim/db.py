"""sqlite under the simulator: waiting on locks in virtual time, latency, faults, row history."""

import sqlite3
import weakref
import types

import sqlalchemy
import sqlalchemy.engine
import sqlalchemy.orm

from .kernel import NS, HarnessError


class DbWorld:
    def __init__(self, world):
        self.world = world
        self.sim = world.sim
        self.paths = {}          # path -> last snapshot
        self.fault_plan = []     # [{'proc':…, 'op': 'execute'|'commit', 'n': k, 'err': text, 'left': m}]
        self.counts = {}
        self.history = True

    def fault(self, proc, op):
        for plan in self.fault_plan:
            if plan.get('proc') not in (None, proc.name) or plan['op'] != op:
                continue
            plan['seen'] = plan.get('seen', 0) + 1
            if plan['seen'] >= plan.get('n', 1) and plan.get('left', 1) > 0:
                plan['left'] = plan.get('left', 1) - 1
                self.sim.fault('db-error')
                raise sqlite3.OperationalError(plan.get('err', 'disk I/O error'))

    def snapshot(self, proc, path):
        if not self.history or path == ':memory:':
            return
        old = self.paths.get(path, {})
        new = read_tables(path)
        if new is None:
            return
        changes = []
        for key, row in new.items():
            if old.get(key) != row:
                changes.append((key, old.get(key), row))
        for key, row in old.items():
            if key not in new:
                changes.append((key, row, None))
        self.paths[path] = new
        if changes:
            self.sim.note('db', proc, changes=changes, base=str(path).rsplit("/", 1)[-1])


def read_tables(path):
    """{(table, id): {column: value}} of the task and client tables."""
    out = {}
    conn = sqlite3.connect(f'file:{path}?mode=ro', uri=True, timeout=0)
    try:
        names = [r[0] for r in conn.execute("select name from sqlite_master where type='table'")]
        for table in ('task', 'client'):
            if table not in names:
                continue
            cur = conn.execute(f'select * from {table}')
            cols = [c[0] for c in cur.description]
            for r in cur.fetchall():
                d = dict(zip(cols, r))
                out[(table, d['id'])] = d
    except sqlite3.OperationalError:
        return None
    finally:
        conn.close()
    return out


SIM = None          # set per run
ORIG = {}


def current_proc():
    t = SIM.current
    return t.proc if t is not None else None


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        return self.connection._sim_do('execute', super().execute, sql, *a)

    def executemany(self, sql, *a):
        return self.connection._sim_do('execute', super().executemany, sql, *a)


class Connection(sqlite3.Connection):
    _sim_proc = None
    _sim_path = None
    _sim_timeout = 5.0
    _sim_changes = 0
    _sim_abandoned = False
    _sim_cursors = None              # open statements keep locks until they are collected

    def cursor(self, factory=Cursor):
        cur = super().cursor(factory)
        if self._sim_cursors is None:
            self._sim_cursors = []
        self._sim_cursors = [r for r in self._sim_cursors if r() is not None] + [weakref.ref(cur)]
        return cur

    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)

    def _sim_do(self, op, fn, *a):
        sim, proc = SIM, self._sim_proc
        if proc is None or sim.current is None:
            return fn(*a)
        world = proc.world
        if sim.no_preempt:
            return fn(*a)
        sim.point(proc, f'db-{op}')
        world.db.fault(proc, op)
        if sim.chance(sim.db_tail_p):
            sim.probe('slow-db')
            sim.sleep(sim.span(sim.db_tail) + 1)
        elif sim.db_max:
            d = sim.span(sim.db_max)
            if d:
                sim.sleep(d)
        left = int(self._sim_timeout * NS)       # as SQLite's handler: adds up its pauses, does not look at a clock
        delay = 1_000_000
        while True:
            try:
                result = fn(*a)
                break
            except sqlite3.OperationalError as exc:
                text = str(exc)
                if 'locked' not in text and 'busy' not in text:
                    raise
                sim.probe('db-busy')
                if left <= 0:
                    sim.probe('db-busy-timeout')
                    raise
                sim.sleep(min(delay, left))
                left -= delay
                delay = min(delay * 2, 100_000_000)
        if op == 'commit':
            self._sim_committed()
        elif op == 'execute' and not self.in_transaction:
            self._sim_committed()      # DDL and autocommit statements
        sim.point(proc, f'db-{op}-done')
        return result

    def _sim_committed(self):
        n = self.total_changes
        if n != self._sim_changes:
            self._sim_changes = n
            self._sim_proc.world.db.snapshot(self._sim_proc, self._sim_path)

    def commit(self):
        if not self.in_transaction:
            return super().commit()
        return self._sim_do('commit', super().commit)

    def rollback(self):
        if self._sim_abandoned:
            return None
        return super().rollback()

    def close(self):
        if self in getattr(self._sim_proc, 'db_conns', ()):
            self._sim_proc.db_conns.remove(self)
        return super().close()


def abandon(conn):
    """The owning process died: whatever it had not committed is gone."""
    try:
        conn._sim_abandoned = True
        for ref in conn._sim_cursors or ():
            cur = ref()
            if cur is not None:
                sqlite3.Cursor.close(cur)
        sqlite3.Connection.rollback(conn)
        sqlite3.Connection.close(conn)
    except sqlite3.Error:
        pass


def connect(database, timeout=5.0, **kw):
    proc = current_proc()
    if proc is None:
        raise HarnessError('database connection outside of a simulated process')
    kw.pop('factory', None)
    sim = SIM
    if not sim.no_preempt:
        sim.point(proc, 'db-connect')
        proc.world.db.fault(proc, 'connect')
    if database != ':memory:' and not str(database).startswith('file:'):
        proc.world.check_path(database)
    conn = sqlite3.connect(database, timeout=0, factory=Connection, **kw)
    conn._sim_proc = proc
    conn._sim_path = str(database)
    conn._sim_timeout = timeout
    proc.db_conns.append(conn)
    return conn


def make_dbapi():
    m = types.ModuleType('sqlite3sim')
    for k, v in vars(sqlite3).items():
        if not k.startswith('__'):
            m.__dict__[k] = v
    m.connect = connect
    return m


def install(sim):
    """Route SQLAlchemy in this interpreter through the simulator (in the forked child only)."""
    global SIM
    SIM = sim
    if ORIG:
        return
    ORIG['create_engine'] = sqlalchemy.create_engine
    ORIG['scoped_session'] = sqlalchemy.orm.scoped_session
    dbapi = make_dbapi()

    def create_engine(url, **kw):
        if str(url).startswith('sqlite'):
            kw.setdefault('module', dbapi)
        engine = ORIG['create_engine'](url, **kw)
        dialect = engine.dialect
        init = dialect.initialize

        def initialize(conn):
            SIM.no_preempt += 1
            try:
                return init(conn)
            finally:
                SIM.no_preempt -= 1
        dialect.initialize = initialize
        return engine

    def scoped_session(factory, scopefunc=None):
        def ident():
            t = SIM.current
            return t.ident if t is not None else 0
        reg = ORIG['scoped_session'](factory, scopefunc=scopefunc or ident)
        proc = current_proc()
        if proc is not None and scopefunc is None:
            proc.scoped.append(reg)
        return reg

    sqlalchemy.create_engine = create_engine
    sqlalchemy.engine.create_engine = create_engine
    sqlalchemy.orm.scoped_session = scoped_session
