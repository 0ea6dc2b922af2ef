"""multiprocessing: JoinableQueue (pipe + feeder) and BaseManager (remote calls over a faulty network)."""

import errno
import multiprocessing as _mp
import multiprocessing.managers as _mgr
import pickle
import types
from collections import deque
from queue import Empty, Full

from .kernel import NS, WaitQueue, HarnessError

AuthenticationError = _mp.AuthenticationError
SEM_MAX = 2 ** 31 - 1


def snap(obj):
    return list(obj) if isinstance(obj, list) else obj


class Shared:
    """The part of a queue that lives in shared memory and the pipe."""

    def __init__(self, sim, maxsize):
        self.sim = sim
        self.maxsize = maxsize if maxsize > 0 else SEM_MAX
        self.sem = self.maxsize
        self.pipe = deque()
        self.readers = WaitQueue(sim)
        self.writers = WaitQueue(sim)
        self.unfinished = 0
        self.joiners = WaitQueue(sim)
        self.name = '?'
        self.max_outstanding = 0


class Side:
    """A queue as seen from one process (own buffer and feeder thread)."""

    def __init__(self, shared, proc):
        self.s = shared
        self.proc = proc
        self.buffer = deque()
        self.feeder = None
        self.have = WaitQueue(shared.sim)
        self.closed = False

    def put(self, obj, block=True, timeout=None):
        s, sim = self.s, self.s.sim
        if self.closed:
            raise ValueError('Queue is closed')
        deadline = None if timeout is None else sim.now + int(max(0, timeout) * NS)
        while s.sem <= 0:
            if not block:
                raise Full
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                sim.probe(f'full:{s.name}')
                raise Full
            s.writers.wait(left)
        s.sem -= 1
        s.unfinished += 1
        s.max_outstanding = max(s.max_outstanding, s.maxsize - s.sem)
        sim.note('q-put', self.proc, q=s.name, obj=snap(obj))
        self.buffer.append(obj)
        if self.feeder is None:
            self.feeder = sim.spawn(self.proc, self._feed, f'feeder-{s.name}')
        else:
            self.have.wake_one()
        sim.pause()

    def _feed(self):
        s, sim = self.s, self.s.sim
        while True:
            while not self.buffer:
                self.have.wait()
            obj = self.buffer.popleft()
            if sim.chance(sim.feeder_tail_p):
                sim.probe('feeder-delay')
                sim.sleep(sim.span(sim.feeder_tail) + 1)
            else:
                sim.sleep(sim.span(sim.feeder_max))
            data = pickle.dumps(obj)
            sim.point(self.proc, f'pipe-write:{s.name}')
            s.pipe.append(data)
            sim.note('q-pipe', self.proc, q=s.name, obj=obj)
            s.readers.wake_one()

    def get(self, block=True, timeout=None):
        s, sim = self.s, self.s.sim
        if self.closed:
            raise ValueError('Queue is closed')
        deadline = None if timeout is None else sim.now + int(max(0, timeout) * NS)
        while not s.pipe:
            if not block:
                raise Empty
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                raise Empty
            s.readers.wait(left)
        data = s.pipe.popleft()
        s.sem += 1
        s.writers.wake_one()
        obj = pickle.loads(data)
        sim.note('q-get', self.proc, q=s.name, obj=obj)
        sim.pause()
        return obj

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def qsize(self):
        return self.s.maxsize - self.s.sem

    def empty(self):
        return not self.s.pipe

    def full(self):
        return self.s.sem <= 0

    def task_done(self):
        if self.s.unfinished <= 0:
            raise ValueError('task_done() called too many times')
        self.s.unfinished -= 1
        if not self.s.unfinished:
            self.s.joiners.wake_all()

    def join(self):
        while self.s.unfinished:
            self.s.joiners.wait()

    def close(self):
        self.closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


METHODS = ('put', 'get', 'put_nowait', 'get_nowait', 'qsize', 'empty', 'full', 'task_done', 'join',
           'close', 'join_thread', 'cancel_join_thread')


class JoinableQueue:
    """What the user's code holds; resolves to the side of the process that runs."""

    def __init__(self, proc, maxsize=0):
        self._shared = Shared(proc.sim, maxsize)
        self._sides = {}
        self._creator = proc

    def _side(self, proc):
        side = self._sides.get(proc.name)
        if side is None:
            side = self._sides[proc.name] = Side(self._shared, proc)
        return side

    def _here(self):
        t = self._shared.sim.current
        return self._side(t.proc if t is not None and t.proc is not None else self._creator)


for _m in METHODS:
    def _fn(self, *a, _m=_m, **k):
        return getattr(self._here(), _m)(*a, **k)
    setattr(JoinableQueue, _m, _fn)


class Conn:
    """One connection from a client thread to a manager, with its serving thread."""

    def __init__(self, client, manager):
        self.client = client
        self.manager = manager
        self.broken = None            # exception class raised on use
        self.requests = deque()
        self.server_wq = WaitQueue(client.sim)
        self.client_wq = WaitQueue(client.sim)
        self.reply = None
        self.thread = None
        self.inflight = False         # a reply was sent and has not arrived yet
        self.closing = None           # the other side closed the connection after that reply

    def close(self, exc):
        """The manager process ended: what it had sent still arrives first."""
        if self.inflight and not self.broken:
            self.closing = exc
        else:
            self.break_(exc)

    def break_(self, exc):
        if self.broken is None:
            self.broken = exc
            self.client_wq.wake_all()


class Manager:
    """The manager process: serves the queues of one server to connected clients."""

    def __init__(self, world, proc, address, authkey, registry):
        self.world = world
        self.proc = proc
        self.address = address
        self.authkey = authkey
        self.registry = registry
        self.conns = []
        self.alive = True
        self.bind_host = proc.host

    def die(self, exc):
        self.alive = False
        self.world.listeners.pop((self.bind_host, self.address[1]), None)
        for c in self.conns:
            c.close(exc)

    def serve(self, conn):
        sim = self.world.sim
        while True:
            while not conn.requests:
                if conn.broken or conn.client.dead:
                    return
                conn.server_wq.wait()
            queue, method, args, kwargs = conn.requests.popleft()
            sim.point(self.proc, f'serve:{queue._shared.name}.{method}')
            try:
                value, ok = getattr(queue._side(self.proc), method)(*args, **kwargs), True
            except Exception as exc:           # noqa  (travels to the caller)
                value, ok = exc, False
            sim.point(self.proc, f'served:{queue._shared.name}.{method}')
            if conn.client.dead or conn.broken:
                if ok and method.startswith('get'):
                    sim.note('reply-lost', self.proc, q=queue._shared.name, obj=value, client=conn.client.name)
                    sim.probe('reply-lost')
                return
            # the reply travels back
            conn.inflight = True
            self.world.deliver_later(self.proc, conn.client, lambda v=value, o=ok: self._reply(conn, v, o))

    def _reply(self, conn, value, ok):
        conn.inflight = False
        if conn.client.dead or conn.broken:
            if ok and value is not None:
                self.world.sim.note('reply-lost', self.proc, q='?', obj=value, client=conn.client.name)
                self.world.sim.probe('reply-lost')
            return
        conn.reply = (value, ok)
        conn.client_wq.wake_all()
        if conn.closing:
            conn.break_(conn.closing)


class QueueProxy:
    """Client side proxy; one connection per thread."""

    def __init__(self, proc, manager_addr, authkey, queue, manager):
        self._proc = proc
        self._queue = queue
        self._addr = manager_addr
        self._authkey = authkey
        self._manager = manager
        self._conns = {}

    def _call(self, method, args, kwargs):
        proc = self._proc
        sim, world = proc.sim, proc.world
        ident = sim.current.ident
        name = self._queue._shared.name
        conn = self._conns.get(ident)
        if conn is None:
            conn = world.connect(proc, self._addr, self._authkey)
            self._conns[ident] = conn
        if conn.broken:
            sim.note('rpc-lost', proc, q=name, m=method)
            raise world.broken_error(conn, 'send')
        sim.point(proc, f'rpc:{name}.{method}')
        sim.note('rpc', proc, q=name, m=method, obj=snap(args[0]) if args and method.startswith('put') else None)
        payload = pickle.loads(pickle.dumps((args, kwargs)))
        conn.reply = None

        def arrive():
            if conn.broken or not self._manager.alive:
                conn.break_(conn.broken or ConnectionResetError)
                return
            conn.requests.append((self._queue, method, *payload))
            conn.server_wq.wake_all()
        world.deliver_later(proc, self._manager.proc, arrive)
        sim.point(proc, f'rpc-sent:{name}.{method}')
        while conn.reply is None:
            if conn.broken:
                sim.note('rpc-lost', proc, q=name, m=method)
                raise world.broken_error(conn, 'recv')
            conn.client_wq.wait()
        (value, ok), conn.reply = conn.reply, None
        if ok:
            # a fresh copy, as pickled over the wire
            value = pickle.loads(pickle.dumps(value))
            sim.note('rpc-ok', proc, q=name, m=method, obj=value if method.startswith('get') else
                     (snap(args[0]) if args else None))
        else:
            sim.note('rpc-fail', proc, q=name, m=method, error=type(value).__name__)
        sim.point(proc, f'rpc-done:{name}.{method}' if ok else f'rpc-fail:{name}.{method}')
        sim.pause()
        if not ok:
            raise value
        return value


for _m in METHODS:
    def _pfn(self, *a, _m=_m, **k):
        return self._call(_m, a, k)
    setattr(QueueProxy, _m, _pfn)


def make_modules(proc):
    """The `multiprocessing` and `multiprocessing.managers` modules of a process."""
    world, sim = proc.world, proc.sim

    class BaseManager:
        _registry = {}

        def __init__(self, address=None, authkey=None, serializer='pickle', ctx=None, *, shutdown_timeout=1.0):
            self._address = address
            self._authkey = authkey
            self._state = 'INITIAL'
            self._manager = None
            self._mproc = None

        def __reduce__(self):
            raise TypeError('cannot pickle')

        @property
        def address(self):
            return self._address

        @classmethod
        def register(cls, typeid, callable=None, proxytype=None, exposed=None, method_to_typeid=None,
                     create_method=True):
            if '_registry' not in cls.__dict__:
                cls._registry = cls._registry.copy()
            cls._registry[typeid] = callable
            if create_method:
                def temp(self, /, *a, **k):
                    return self._create(typeid, *a, **k)
                temp.__name__ = typeid
                setattr(cls, typeid, temp)

        def _create(self, typeid, *a, **k):
            assert self._state == 'STARTED', 'server not yet started'
            if self._manager is not None:
                manager = self._manager
            else:
                manager = world.find_manager(proc, self._address)
            conn = world.connect(proc, self._address, self._authkey)
            sim.sleep(sim.span(sim.net_max))
            if conn.broken:
                raise world.broken_error(conn, 'recv')
            fn = manager.registry.get(typeid)
            if fn is None:
                raise HarnessError(f'unknown manager type {typeid}')
            queue = fn()
            queue._shared.name = typeid.rsplit('_get_', 1)[-1].lstrip('_')
            return QueueProxy(proc, self._address, self._authkey, queue, manager)

        def start(self, initializer=None, initargs=()):
            if self._state != 'INITIAL':
                raise _mp.ProcessError('Already started server' if self._state == 'STARTED'
                                       else 'Manager has shut down')
            host, port = self._address
            if not world.knows_host(host):
                raise EOFError()
            mproc = world.helper_process(proc, 'manager')
            sim.sleep(sim.span(0.05) + 1_000_000)
            if world.port_in_use(proc.host, port):
                mproc.kill('exit')
                proc.stderr.write('OSError: [Errno 98] Address already in use\n')
                raise EOFError()
            mgr = Manager(world, mproc, self._address, self._authkey, dict(type(self)._registry))
            for typeid, fn in mgr.registry.items():
                if fn is not None:
                    q = fn()
                    if isinstance(q, JoinableQueue):
                        q._shared.name = typeid.rsplit('_get_', 1)[-1].lstrip('_')
            mproc.manager = mgr
            mgr.scope = 'any' if host in ('0.0.0.0', '', '::') or world.resolve(proc, host) != proc.host or \
                host not in ('localhost', '127.0.0.1') else 'local'
            world.listeners[(proc.host, port)] = mgr
            self._manager = mgr
            self._mproc = mproc
            self._state = 'STARTED'
            proc.managers.append(self)
            sim.note('listen', proc, port=port, scope=mgr.scope)

        def connect(self):
            world.connect(proc, self._address, self._authkey)
            sim.sleep(sim.span(sim.net_max))
            self._state = 'STARTED'
            sim.note('connected', proc)

        def shutdown(self):
            if self._manager is None:
                raise AttributeError('shutdown')
            if self._state == 'STARTED' and self._manager.alive:
                sim.sleep(sim.span(sim.net_max) + sim.span(0.01))
                if self._mproc.frozen:
                    sim.sleep(1 * NS)
                self._manager.die(EOFError)
                self._mproc.kill('exit')
                sim.note('shutdown', proc)
            self._state = 'SHUTDOWN'

        def join(self, timeout=None):
            pass

        def __enter__(self):
            if self._state == 'INITIAL':
                self.start()
            return self

        def __exit__(self, *a):
            self.shutdown()

    mgr_mod = types.ModuleType('multiprocessing.managers')
    mgr_mod.BaseManager = BaseManager
    mgr_mod.RemoteError = _mgr.RemoteError

    mod = types.ModuleType('multiprocessing')
    mod.__path__ = []
    mod.AuthenticationError = AuthenticationError
    mod.ProcessError = _mp.ProcessError
    mod.TimeoutError = _mp.TimeoutError
    mod.BufferTooShort = _mp.BufferTooShort
    mod.JoinableQueue = lambda maxsize=0: JoinableQueue(proc, maxsize)
    mod.Queue = mod.JoinableQueue
    mod.cpu_count = lambda: proc.cores
    mod.managers = mgr_mod
    mod.current_process = lambda: types.SimpleNamespace(name='MainProcess', pid=proc.pid, authkey=b'x', daemon=False)
    return {'multiprocessing': mod, 'multiprocessing.managers': mgr_mod}
