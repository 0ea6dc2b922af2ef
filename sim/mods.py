"""Replacement standard modules given to the code of a simulated process."""

import errno
import functools
import os as _os
import random as _random
import secrets as _secrets
import signal as _signal
import socket as _socket
import sys as _sys
import time as _time
import types
import uuid as _uuid
from datetime import date as _rdate, datetime as _rdt, timedelta as _rtd, timezone as _rtz

import _thread as _real_thread

from .kernel import EPOCH, NS, WaitQueue, HarnessError


def copy_module(real, name=None):
    m = types.ModuleType(name or real.__name__)
    for k, v in vars(real).items():
        if k not in ('__loader__', '__spec__'):
            m.__dict__[k] = v
    return m


# ---- _thread -------------------------------------------------------------------------------------

class SimLock:
    def __init__(self, sim):
        self._sim = sim
        self._locked = False
        self._wq = None

    def acquire(self, blocking=True, timeout=-1):
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        sim = self._sim
        if self._wq is None:
            self._wq = WaitQueue(sim)
        deadline = None if timeout is None or timeout < 0 else sim.now + int(timeout * NS)
        while self._locked:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left <= 0:
                    return False
            self._wq.wait(left)
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if self._wq is not None and self._wq.q:
            self._wq.wake_one()

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self, sim):
        self._sim = sim
        self._lock = SimLock(sim)
        self._owner = None
        self._count = 0

    def _me(self):
        t = self._sim.current
        return t.ident if t is not None else 0

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._owner == self._me() else 0

    def _at_fork_reinit(self):
        self.__init__(self._sim)


def make_thread_module(proc):
    sim = proc.sim
    m = types.ModuleType('_thread')

    def start_new_thread(fn, args=(), kwargs=None):
        if proc.thread_limit is not None and len([t for t in proc.threads if t.state != 'dead']) >= proc.thread_limit:
            raise RuntimeError("can't start new thread")
        name = getattr(getattr(fn, '__self__', None), 'name', getattr(fn, '__name__', 'thread'))
        t = sim.spawn(proc, lambda: fn(*args, **(kwargs or {})), name)
        t.on_exit.append(proc.thread_exit)
        return t.ident

    def set_sentinel():
        lock = SimLock(sim)
        t = sim.current

        def release(_):
            if lock.locked():
                lock.release()
        t.on_exit.append(release)
        return lock

    class local:
        def __new__(cls, *a, **k):
            self = object.__new__(cls)
            object.__setattr__(self, '_sim_impl', {})
            object.__setattr__(self, '_sim_args', (a, k))
            return self

        def _sim_dict(self):
            impl = object.__getattribute__(self, '_sim_impl')
            ident = sim.current.ident if sim.current else 0
            d = impl.get(ident)
            if d is None:
                d = impl[ident] = {}
                cls = type(self)
                if cls.__init__ is not object.__init__:
                    a, k = object.__getattribute__(self, '_sim_args')
                    cls.__init__(self, *a, **k)
            return d

        def __getattribute__(self, name):
            if name == '__dict__':
                return local._sim_dict(self)
            d = local._sim_dict(self)
            if name in d:
                return d[name]
            return object.__getattribute__(self, name)

        def __setattr__(self, name, value):
            local._sim_dict(self)[name] = value

        def __delattr__(self, name):
            try:
                del local._sim_dict(self)[name]
            except KeyError:
                raise AttributeError(name) from None

    def excepthook(args):
        import traceback
        text = ''.join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))
        proc.stderr.write(f'Exception in thread {getattr(args.thread, "name", "?")}:\n{text}')

    m.start_new_thread = start_new_thread
    m.start_new = start_new_thread
    m.daemon_threads_allowed = lambda: True
    m.allocate_lock = lambda: SimLock(sim)
    m.LockType = SimLock
    m._set_sentinel = set_sentinel
    m.get_ident = lambda: sim.current.ident if sim.current is not None else 1
    m.get_native_id = m.get_ident
    m._is_main_interpreter = lambda: True
    m.error = RuntimeError
    m.RLock = lambda: SimRLock(sim)
    m.TIMEOUT_MAX = 9.2e9
    m._local = local
    m._excepthook = excepthook
    m._ExceptHookArgs = _real_thread._ExceptHookArgs
    m.stack_size = lambda *a: 0
    m._count = lambda: len(proc.threads)
    m.exit = lambda: (_ for _ in ()).throw(SystemExit())
    m.interrupt_main = lambda signum=_signal.SIGINT: proc.deliver(signum)
    return m


# ---- time and datetime ---------------------------------------------------------------------------

def make_time_module(proc):
    sim = proc.sim
    m = copy_module(_time)

    def wall_ns():
        sim.now += 1000
        return EPOCH + sim.now + proc.skew()

    def sleep(secs):
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        sim.sleep(int(secs * NS))

    def mono_ns():
        sim.now += 1000
        return sim.now + 5_000 * NS

    m.time_ns = wall_ns
    m.time = lambda: wall_ns() / NS
    m.monotonic_ns = mono_ns
    m.monotonic = lambda: mono_ns() / NS
    m.perf_counter_ns = mono_ns
    m.perf_counter = lambda: mono_ns() / NS
    m.process_time = lambda: mono_ns() / NS
    m.process_time_ns = mono_ns
    m.thread_time = m.process_time
    m.clock_gettime = lambda clk: wall_ns() / NS if clk == _time.CLOCK_REALTIME else mono_ns() / NS
    m.clock_gettime_ns = lambda clk: wall_ns() if clk == _time.CLOCK_REALTIME else mono_ns()
    m.sleep = sleep
    m.localtime = lambda secs=None: _time.localtime(wall_ns() / NS if secs is None else secs)
    m.gmtime = lambda secs=None: _time.gmtime(wall_ns() / NS if secs is None else secs)
    m.ctime = lambda secs=None: _time.ctime(wall_ns() / NS if secs is None else secs)
    m.asctime = lambda t=None: _time.asctime(m.localtime() if t is None else t)
    m.strftime = lambda f, t=None: _time.strftime(f, m.localtime() if t is None else t)
    for name in ('time', 'localtime', 'gmtime', 'ctime', 'monotonic', 'perf_counter', 'sleep'):
        setattr(m, name, functools.partial(getattr(m, name)))        # as class attributes they do not become methods
    return m


class Clock:
    """`X.now`, `X.utcnow`, `X.today` for the real datetime classes under the simulated clock."""

    def __init__(self, proc):
        self.proc = proc

    def _ns(self):
        sim = self.proc.sim
        sim.now += 1000
        return EPOCH + sim.now + self.proc.skew()

    def _utc(self):
        ns = self._ns()
        return _rdt(1970, 1, 1) + _rtd(microseconds=ns // 1000)

    def now(self, tz=None):
        naive = self._utc()                      # TZ=UTC for the whole simulation
        if tz is None:
            return naive
        return naive.replace(tzinfo=_rtz.utc).astimezone(tz)

    def utcnow(self):
        return self._utc()

    def dt_today(self):
        return self._utc()

    def date_today(self):
        return self._utc().date()

    def attr(self, obj, name):
        if obj is _rdt:
            if name == 'now':
                return self.now
            if name == 'utcnow':
                return self.utcnow
            return self.dt_today
        if obj is _rdate and name == 'today':
            return self.date_today
        return getattr(obj, name)


# ---- random, uuid, secrets -----------------------------------------------------------------------

def make_random_module(proc):
    m = copy_module(_random)
    inst = _random.Random(proc.entropy('random'))

    class Random(_random.Random):
        def __new__(cls, *a, **k):
            return _random.Random.__new__(cls)

        def __init__(self, x=None):
            super().__init__(proc.entropy('Random') if x is None else x)

        def seed(self, a=None, version=2):
            super().seed(proc.entropy('reseed') if a is None else a, version)

    m.Random = Random
    m.SystemRandom = Random
    m._inst = inst
    for name in ('random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
                 'choices', 'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate',
                 'gammavariate', 'gauss', 'betavariate', 'binomialvariate', 'paretovariate',
                 'weibullvariate', 'getstate', 'setstate', 'getrandbits', 'randbytes'):
        if hasattr(inst, name):
            setattr(m, name, getattr(inst, name))

    def seed(a=None, version=2):
        inst.seed(proc.entropy('reseed') if a is None else a, version)
    m.seed = seed
    return m


def make_uuid_module(proc):
    m = copy_module(_uuid)
    rng = _random.Random(proc.entropy('uuid'))

    def uuid4():
        return _uuid.UUID(int=rng.getrandbits(128), version=4)
    m.uuid4 = uuid4
    m.uuid1 = lambda node=None, clock_seq=None: _uuid.UUID(int=rng.getrandbits(128), version=1)
    return m


def make_secrets_module(proc):
    m = copy_module(_secrets)
    rng = _random.Random(proc.entropy('secrets'))
    m.token_bytes = lambda n=32: rng.randbytes(32 if n is None else n)
    m.token_hex = lambda n=32: rng.randbytes(32 if n is None else n).hex()

    def token_urlsafe(n=32):
        import base64
        return base64.urlsafe_b64encode(rng.randbytes(32 if n is None else n)).rstrip(b'=').decode()
    m.token_urlsafe = token_urlsafe
    m.randbelow = lambda n: rng.randrange(n)
    m.randbits = rng.getrandbits
    m.choice = rng.choice
    m.SystemRandom = lambda: rng
    return m


# ---- socket --------------------------------------------------------------------------------------

def make_socket_module(proc):
    m = copy_module(_socket)
    world = proc.world

    class FakeSocket:
        def __init__(self, *a, **k):
            self.closed = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def settimeout(self, t):
            pass

        def setsockopt(self, *a):
            pass

        def bind(self, addr):
            if world.port_in_use(proc.host, addr[1]):
                raise OSError(errno.EADDRINUSE, 'Address already in use')

        def connect(self, addr):
            if not world.listener(proc.host, addr):
                raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')

        def connect_ex(self, addr):
            return 0 if world.listener(proc.host, addr) else errno.ECONNREFUSED

        def listen(self, *a):
            pass

        def close(self):
            self.closed = True

        def getsockname(self):
            return (proc.host, 0)

    m.socket = FakeSocket
    m.gethostname = lambda: proc.host
    m.getfqdn = lambda name='': name or proc.host

    def gethostbyname(name):
        if not world.knows_host(name):
            raise _socket.gaierror(-2, 'Name or service not known')
        return '10.0.0.1'
    m.gethostbyname = gethostbyname
    return m


# ---- signal --------------------------------------------------------------------------------------

def make_signal_module(proc):
    m = copy_module(_signal)

    def register(signum, handler):
        signum = int(signum)
        if signum in (_signal.SIGKILL, _signal.SIGSTOP):
            raise OSError(errno.EINVAL, 'Invalid argument')
        old = proc.handlers.get(signum, _signal.SIG_DFL)
        proc.handlers[signum] = handler
        return old
    m.signal = register
    m.getsignal = lambda s: proc.handlers.get(int(s), _signal.SIG_DFL)
    m.raise_signal = lambda s: proc.deliver(int(s))
    m.set_wakeup_fd = lambda *a, **k: -1
    m.alarm = lambda *a: 0
    m.siginterrupt = lambda *a: None
    m.pthread_sigmask = lambda *a: set()
    return m


# ---- sys -----------------------------------------------------------------------------------------

def make_sys_module(proc):
    m = copy_module(_sys)
    m.argv = list(proc.argv)
    m.stdin = proc.stdin
    m.stdout = proc.stdout
    m.stderr = proc.stderr
    m.__stdout__, m.__stderr__, m.__stdin__ = proc.stdout, proc.stderr, proc.stdin
    m.settrace = lambda f: None
    m.setprofile = lambda f: None
    m.modules = _sys.modules
    return m


# ---- os ------------------------------------------------------------------------------------------

class SimEnviron(dict):
    """os.environ of a simulated process."""

    def copy(self):
        return dict(self)

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError(f'str expected, not {type(v if isinstance(k, str) else k).__name__}')
        dict.__setitem__(self, k, v)


def make_os_module(proc):
    sim, world = proc.sim, proc.world
    m = copy_module(_os)
    m.environ = proc.environ
    m.getenv = lambda k, d=None: proc.environ.get(k, d)

    def putenv(k, v):
        proc.environ[k] = v
    m.putenv = putenv
    m.getpid = lambda: proc.pid
    m.getppid = lambda: proc.ppid
    m.getlogin = lambda: 'sim'
    m.getuid = lambda: 1000
    m.geteuid = lambda: 1000
    m.cpu_count = lambda: proc.cores
    m.sched_getaffinity = lambda pid=0: set(range(proc.cores))
    m.register_at_fork = lambda **k: None

    def no(name):
        def f(*a, **k):
            raise HarnessError(f'os.{name} is not simulated')
        return f
    for name in ('fork', 'forkpty', 'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execlp', 'spawnv',
                 'posix_spawn', 'system', 'popen', 'chroot', 'setuid', 'wait', 'waitpid'):
        if hasattr(m, name):
            setattr(m, name, no(name))

    def kill(pid, sig):
        world.kill(pid, int(sig), by=proc)
    m.kill = kill
    m.killpg = lambda pid, sig: world.kill(pid, int(sig), by=proc, group=True)
    m.getpgid = lambda pid: pid
    m.getpgrp = lambda: proc.pid
    m.setsid = lambda: proc.pid
    m.setpgid = lambda a, b: None
    rng = _random.Random(proc.entropy('urandom'))
    m.urandom = rng.randbytes
    m.getcwd = lambda: proc.cwd
    m._exit = lambda code: proc.exit_now(code)

    def uname():
        r = _os.uname()
        return types.SimpleNamespace(sysname=r.sysname, nodename=proc.host, release=r.release, version=r.version,
                                     machine=r.machine)
    m.uname = uname

    # destructive and metadata calls pass a fault point and stay inside the scratch directory
    def guarded(name, npaths, kind):
        real = getattr(_os, name)

        def f(*a, **k):
            for p in a[:npaths]:
                if isinstance(p, (str, bytes, _os.PathLike)):
                    world.check_path(_os.fspath(p))
            sim.point(proc, kind)
            world.fs_fault(proc, kind, _os.fspath(a[0]) if a and not isinstance(a[0], int) else '')
            r = real(*a, **k)
            sim.point(proc, kind + '-done')
            return r
        return f
    for name, n in (('rename', 2), ('replace', 2), ('remove', 1), ('unlink', 1), ('rmdir', 1), ('removedirs', 1),
                    ('truncate', 1), ('symlink', 2), ('link', 2), ('chmod', 1), ('chown', 1), ('mkdir', 1)):
        setattr(m, name, guarded(name, n, 'fs-' + name))
    m.fsync = lambda fd: sim.point(proc, 'fs-fsync')
    m.fdatasync = m.fsync

    def makedirs(name, mode=0o777, exist_ok=False):
        world.check_path(name)
        sim.point(proc, 'fs-makedirs')
        world.fs_fault(proc, 'fs-makedirs', name)
        return _os.makedirs(name, mode, exist_ok)
    m.makedirs = makedirs

    path = copy_module(_os.path)

    def expanduser(p):
        p = _os.fspath(p)
        if p == '~' or p.startswith('~/'):
            return proc.environ.get('HOME', '/nonexistent') + p[1:]
        return p

    def expandvars(p):
        import re
        return re.sub(r'\$(\w+|\{[^}]*\})',
                      lambda mt: proc.environ.get(mt.group(1).strip('{}'), mt.group(0)), p)
    path.expanduser = expanduser
    path.expandvars = expandvars
    path.abspath = lambda p: _os.path.normpath(p if _os.path.isabs(p) else _os.path.join(proc.cwd, p))
    m.path = path
    return m


def make_console_module(proc):
    """rich.console printing to the standard output of the simulated process."""
    import rich.console
    mod = copy_module(rich.console)

    class Console(rich.console.Console):

        def __init__(self, **kw):
            width = proc.environ.get('COLUMNS', '80')
            kw = {'file': proc.stdout, 'width': int(width), 'height': 25, 'force_terminal': False, 'color_system': None,
                  'legacy_windows': False, '_environ': {}, **kw}
            super().__init__(**kw)
    mod.Console = Console
    return mod
