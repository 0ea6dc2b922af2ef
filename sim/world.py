"""The simulated deployment: hosts, processes, network, files, ledger of executions, faults."""

import errno
import hashlib
import io
import os
import signal
import sys
import traceback
from collections import deque
from socket import gaierror

from .kernel import NS, WaitQueue, HarnessError, SimThread
from . import child as childmod
from . import db as dbmod
from . import mods, mp
from .loader import Loader


class SimStream:
    """stdout or stderr of a simulated process."""

    encoding = 'utf-8'
    errors = 'strict'
    newlines = None
    mode = 'w'
    closed = False

    def __init__(self, proc, name):
        self.proc = proc
        self.name = f'<{name}>'
        self.parts = []
        self.times = []

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError(f'write() argument must be str, not {type(text).__name__}')
        self.parts.append(text)
        self.times.append(self.proc.sim.now)
        return len(text)

    def sim_write(self, text):
        self.write(text)

    @property
    def buffer(self):
        return SimBinary(self)

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def readable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def close(self):
        pass

    def text(self):
        return ''.join(self.parts)

    def __iter__(self):
        raise io.UnsupportedOperation('not readable')


class SimBinary:
    """The bytes below a SimStream."""

    def __init__(self, stream):
        self.stream = stream

    def write(self, data):
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.stream.write(bytes(data).decode('utf-8', 'surrogateescape'))
        return len(data)

    def flush(self):
        pass


class SimStdin:
    """stdin of a simulated process: lines that become available at given times."""

    name = '<stdin>'
    encoding = 'utf-8'
    mode = 'r'
    closed = False

    def __init__(self, proc, feed=None):
        self.proc = proc
        self.feed = deque((int(t * NS), line) for t, line in (feed or []))   # absolute times; line None = stays open
        self.read_log = []

    def readline(self, *_):
        sim = self.proc.sim
        if not self.feed:
            sim.note('stdin-eof', self.proc)
            return ''
        when, line = self.feed[0]
        while sim.now < when:
            sim.park(when - sim.now)
        self.feed.popleft()
        sim.note('stdin', self.proc, line=line)
        self.read_log.append((sim.now, line))
        return line

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def read(self, n=-1):
        out = []
        while True:
            ln = self.readline()
            if not ln:
                return ''.join(out)
            out.append(ln)

    def readlines(self):
        return list(self)

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SimRaw(io.RawIOBase):
    """Unbuffered file with fault points."""

    def __init__(self, world, proc, path, fd, mode):
        super().__init__()
        self.world, self.proc, self.path, self.fd = world, proc, path, fd
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self.mode = mode
        self.name = path

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def readinto(self, b):
        if self.proc.dead:
            return 0
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        proc, world = self.proc, self.world
        if proc.dead:
            return len(b)
        data = bytes(b)
        world.sim.point(proc, 'fs-write')
        limit = world.write_fault(proc, self.path, len(data))
        if limit is not None:
            if isinstance(limit, OSError):
                raise limit
            data = data[:limit]
            if not data:
                raise OSError(errno.ENOSPC, 'No space left on device', self.path)
        n = os.write(self.fd, data)
        world.sim.point(proc, 'fs-written')
        return n

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            super().close()
            if not self.proc.dead:
                os.close(self.fd)


class SimProcess:
    """One operating system process of the deployment."""

    def __init__(self, world, name, argv, host='h0', env=None, stdin=None, skew=0.0, cores=4, helper=False,
                 ppid=1, cwd=None):
        self.world = world
        self.sim = world.sim
        self.name = name
        self.argv = list(argv)
        self.host = host
        self.environ = mods.SimEnviron(env if env is not None else world.default_env(host))
        self.cwd = cwd or world.cwd
        self.pid = world.new_pid()
        self.ppid = ppid
        self.cores = cores
        self.helper = helper
        self.skew_ns = int(skew * NS)
        self.threads = []
        self.thread_limit = None
        self.script = None
        self.bare = False
        self.dead = False
        self.frozen = False
        self.frozen_ready = []
        self.exit_code = None
        self.exit_time = None
        self.handlers = {}
        self.atexit = []
        self.managers = []
        self.manager = None
        self.conns = []
        self.db_conns = []
        self.scoped = []
        self.files = []
        self.on_dead = []
        self.started = None
        self.main = None
        self.loader = None
        self.killed_by = None
        self.entropy_n = 0
        self.crash_text = None
        self.stdin = SimStdin(self, stdin)
        self.stdout = SimStream(self, 'stdout')
        self.stderr = SimStream(self, 'stderr')
        world.procs[name] = self
        world.pids[self.pid] = self
        self.sim.procs.append(self)

    def __repr__(self):
        return f'<proc {self.name}>'

    def skew(self):
        return self.skew_ns + self.world.host_skew.get(self.host, 0)

    def entropy(self, label):
        self.entropy_n += 1
        text = f'{self.sim.seed}/{self.name}/{label}/{self.entropy_n}'
        return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')

    def alive(self):
        return not self.dead and self.started is not None

    # ---- life ------------------------------------------------------------------------------

    def start(self):
        self.started = self.sim.now
        self.main = self.sim.spawn(self, self._main, 'main')
        self.sim.note('proc-start', self, argv=list(self.argv), host=self.host)
        return self

    def _main(self):
        code = 0
        try:
            self.loader = Loader(self)
            self.sim.point(self, 'proc-main')
            module = None if self.bare else self.loader.load('hypershell')
            if self.script is not None:
                code = self.run_script(module)
            else:
                code = module.main()
        except SystemExit as exc:
            code = exc.code
        except KeyboardInterrupt:
            code = 130
            self.stderr.write('KeyboardInterrupt\n')
        except HarnessError:
            raise
        except BaseException as exc:       # noqa
            self.crash_text = ''.join(traceback.format_exception(exc))
            self.stderr.write(self.crash_text)
            code = 1
        if code is None:
            code = 0
        elif not isinstance(code, int):
            self.stderr.write(f'{code}\n')
            code = 1
        self.sim.note('main-return', self, code=code)
        # interpreter shutdown: join non-daemon threads, run exit handlers, flush files
        try:
            threading = self.loader.modules.get('threading') if self.loader else None
            if threading is not None:
                for t in threading.enumerate():
                    if not t.daemon and t is not threading.main_thread() and t.is_alive():
                        threading.Thread.join(t)
            for fn, a, k in reversed(self.atexit):
                fn(*a, **k)
            for mgr in self.managers:
                if mgr._state == 'STARTED':
                    mgr.shutdown()
        except HarnessError:
            raise
        except BaseException as exc:       # noqa
            self.stderr.write(''.join(traceback.format_exception(exc)))
        for f in self.files:
            try:
                if not f.closed:
                    f.flush()
            except Exception:     # noqa
                pass
        self.exit_code = code & 0xFF if code >= 0 else code
        self.kill('exit')

    def run_script(self, module):
        """A user program written against the library interface."""
        space = {'__name__': '__main__', 'hypershell': module, 'load': self.loader.load, 'proc': self,
                 'sleep': lambda s: self.sim.sleep(int(s * NS)), 'stdin': self.stdin,
                 'note': lambda kind, **kw: self.sim.note(kind, self, **kw)}
        exec(compile(self.script, '<script>', 'exec'), space)
        return space.get('code', 0)

    def thread_exit(self, t):
        for reg in self.scoped:
            reg.registry.registry.pop(t.ident, None)

    def exit_now(self, code):
        self.exit_code = code
        self.kill('exit')

    def kill(self, why):
        """The process stops existing at this very point."""
        if self.dead:
            return
        sim = self.sim
        self.dead = True
        self.exit_time = sim.now
        self.killed_by = why
        if self.exit_code is None:
            self.exit_code = 0 if self.helper and why == 'exit' else -9
        sim.note('proc-end', self, why=why, code=self.exit_code)
        sim.keep.append(self)
        for t in self.threads:
            t.state = 'dead'
        for conn in self.db_conns:
            dbmod.abandon(conn)
        for c in self.conns:
            c.server_wq.wake_all()
        if self.manager is not None and self.manager.alive:
            self.manager.die(EOFError if why == 'exit' else ConnectionResetError)
            if why == 'host crash':
                for c in self.manager.conns:
                    c.break_(ConnectionResetError)
        for cb in self.on_dead:
            cb(self)
        if sim.current is not None and sim.current.proc is self:
            sim.never()

    def freeze(self):
        if not self.dead and not self.frozen:
            self.frozen = True
            mine = [t for t in self.sim.runq if t.proc is self]
            for t in mine:
                self.sim.runq.remove(t)
            self.frozen_ready.extend(mine)
            self.sim.note('freeze', self)
            if self.sim.current is not None and self.sim.current.proc is self:
                self.sim.yield_()

    def thaw(self):
        if not self.dead and self.frozen:
            self.frozen = False
            self.sim.note('thaw', self)
            for t in self.frozen_ready:
                if t.state == 'ready':
                    self.sim.runq.append(t)
            self.frozen_ready = []

    def deliver(self, signum):
        """A signal arrives."""
        if self.dead or self.started is None:
            return
        signum = int(signum)
        self.sim.note('signal', self, sig=signum)
        if signum == 0:
            return
        if signum == signal.SIGKILL:
            self.exit_code = -9
            return self.kill('SIGKILL')
        if signum == signal.SIGSTOP:
            return self.freeze()
        if signum == signal.SIGCONT:
            return self.thaw()
        h = self.handlers.get(signum, signal.SIG_DFL)
        if h == signal.SIG_IGN:
            return
        if h == signal.SIG_DFL or h is None:
            if signum == signal.SIGINT:
                if self.main is not None and self.main.state != 'dead':
                    self.sim.interrupt(self.main, KeyboardInterrupt())
                return
            if signum in (signal.SIGCHLD, signal.SIGWINCH, signal.SIGURG):
                return
            self.exit_code = -signum
            return self.kill(f'signal {signum}')

        def run():
            try:
                h(signum, None)
            except BaseException as exc:      # noqa
                self.sim.interrupt(self.main, exc)
        t = self.sim.spawn(self, run, f'signal-{signum}')
        t.ident = self.main.ident


class World:
    """Everything outside the processes."""

    arg_max = 131072

    def __init__(self, sim, scratch, specs=None, env=None):
        self.sim = sim
        self.scratch = scratch
        self.cwd = os.path.join(scratch, 'work')
        os.makedirs(self.cwd, exist_ok=True)
        self.procs = {}
        self.pids = {}
        self.children = {}
        self.pid_seq = 1000
        self.listeners = {}
        self.base_env = dict(env or {})
        self.host_env = {}
        self.hosts = {'h0'}
        self.aliases = {}
        self.host_skew = {}
        self.partitions = set()          # frozenset({hostA, hostB}) or host name (cut from everyone)
        self.held = []
        self.specs = specs or {}
        self.spec_default = {'dur': 0.1, 'exit': 0}
        self.ledger = []
        self.exec_counts = {}
        self.write_plan = []             # [{'path': substring, 'after': bytes, 'err': errno, 'proc': name}]
        self.open_plan = []
        self.fs_plan = []
        self.popen_plan = []             # [{'match': token, 'err': errno}]
        self.launch_hooks = {}
        self.launched = []
        self.launch_seq = 0
        self.client_env = {}
        self.files_opened = []
        self.db = dbmod.DbWorld(self)

    # ---- identifiers, environment ----------------------------------------------------------

    def new_pid(self):
        self.pid_seq += 1
        return self.pid_seq

    def default_env(self, host):
        env = {'PATH': '/usr/bin', 'HOME': os.path.join(self.scratch, 'home'), 'TZ': 'UTC', 'USER': 'sim',
               'HYPERSHELL_SITE': self.site(host),
               'HYPERSHELL_CONFIG_FILE': os.path.join(self.site(host), 'config.toml')}
        env.update(self.base_env)
        env.update(self.host_env.get(host, {}))
        return {k: v for k, v in env.items() if v is not None}

    def site(self, host):
        path = os.path.join(self.scratch, f'site-{host}')
        if not os.path.isdir(path):
            os.makedirs(path)
        return path

    def root(self, host):
        return os.path.join(self.scratch, f'root-{host}')

    def knows_host(self, name):
        return name in ('localhost', '127.0.0.1', '0.0.0.0', '') or name in self.hosts or name in self.aliases

    def resolve(self, proc, name):
        if name in ('localhost', '127.0.0.1', '0.0.0.0', ''):
            return proc.host
        return self.aliases.get(name, name)

    # ---- network ---------------------------------------------------------------------------

    def port_in_use(self, host, port):
        return (host, port) in self.listeners

    def listener(self, from_host, addr):
        host = from_host if addr[0] in ('localhost', '127.0.0.1', '0.0.0.0', '') else self.aliases.get(addr[0], addr[0])
        mgr = self.listeners.get((host, addr[1]))
        if mgr is None or (mgr.scope == 'local' and host != from_host):
            return None
        return mgr

    def find_manager(self, proc, addr):
        mgr = self.listener(proc.host, addr)
        if mgr is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        return mgr

    def connect(self, proc, addr, authkey):
        sim = self.sim
        if not self.knows_host(addr[0]):
            raise gaierror(-2, 'Name or service not known')
        sim.point(proc, 'connect')
        target = self.resolve(proc, addr[0])
        while self.cut(proc.host, target):
            self.wait_heal()
        sim.sleep(sim.span(sim.net_max) * 2)
        mgr = self.find_manager(proc, addr)
        if authkey != mgr.authkey:
            raise mp.AuthenticationError('digest sent was rejected')
        conn = mp.Conn(proc, mgr)
        mgr.conns.append(conn)
        proc.conns.append(conn)
        conn.thread = sim.spawn(mgr.proc, lambda: mgr.serve(conn), 'serve')
        return conn

    def broken_error(self, conn, when):
        sim = self.sim
        exc = conn.broken
        if when == 'send':
            k = sim.draw(3)
            return (ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer') if k == 0 else
                    EOFError() if k == 1 else BrokenPipeError(errno.EPIPE, 'Broken pipe'))
        if exc is EOFError and sim.draw(2) == 0:
            return EOFError()
        return ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')

    def cut(self, a, b):
        return a != b and (a in self.partitions or b in self.partitions or frozenset((a, b)) in self.partitions)

    def wait_heal(self):
        if not hasattr(self, 'heal_wq'):
            self.heal_wq = WaitQueue(self.sim)
        self.heal_wq.wait()

    def heal(self):
        self.partitions.clear()
        if hasattr(self, 'heal_wq'):
            self.heal_wq.wake_all()
        held, self.held = self.held, []
        for fn in held:
            self.sim.after(self.sim.span(self.sim.net_max), fn)

    def deliver_later(self, src, dst, fn):
        sim = self.sim
        if self.cut(src.host, dst.host):
            sim.probe('held-message')
            self.held.append(fn)
            return
        if sim.chance(sim.net_tail_p):
            sim.probe('late-message')
            delay = sim.span(sim.net_tail)
        else:
            delay = sim.span(sim.net_max)

        def arrive():
            if self.cut(src.host, dst.host):
                self.held.append(fn)
            else:
                fn()
        sim.after(delay, arrive)

    def reset_connections(self, proc):
        """Every TCP connection of a process is torn down."""
        for c in list(proc.conns):
            if not c.broken:
                c.break_(ConnectionResetError)

    # ---- processes -------------------------------------------------------------------------

    def process(self, name, argv, **kw):
        base, n = name, 1
        while name in self.procs:
            n += 1
            name = f'{base}.{n}'
        self.hosts.add(kw.get('host', 'h0'))
        return SimProcess(self, name, argv, **kw)

    def helper_process(self, parent, label):
        p = self.process(f'{parent.name}-{label}', [], host=parent.host, env={}, helper=True, ppid=parent.pid)
        p.started = self.sim.now
        return p

    def kill(self, pid, sig, by=None, group=False):
        if pid in self.pids:
            return self.pids[pid].deliver(sig)
        c = self.children.get(pid)
        if c is not None:
            if c.dead:
                raise ProcessLookupError(errno.ESRCH, 'No such process')
            return c.signal(sig)
        raise ProcessLookupError(errno.ESRCH, 'No such process')

    def crash_host(self, host):
        doomed = [p for p in self.procs.values() if p.host == host and not p.dead and p.started is not None]
        for p in self.self_last(doomed):
            p.exit_code = -9
            p.kill('host crash')

    def self_last(self, procs):
        """A process that kills itself does not return."""
        me = self.sim.current.proc if self.sim.current is not None else None
        return sorted(procs, key=lambda p: p is me)

    def crash_service(self, proc):
        """The process and its helpers die together (crash of its node or service group)."""
        doomed = [p for p in self.procs.values() if p is not proc and p.helper and p.ppid == proc.pid] + [proc]
        for p in self.self_last([p for p in doomed if not p.dead]):
            if p is proc:
                p.exit_code = -9
            p.kill('crash')

    # ---- launching hs from hs --------------------------------------------------------------

    def launch(self, proc, argv, env, cwd):
        """Interpret `[launcher …] hs client …`; None if it is not such a command."""
        words = list(argv)
        host = proc.host
        count = 1
        if words and words[0] == 'ssh':
            words.pop(0)
            while words and words[0].startswith('-'):
                opt = words.pop(0)
                if opt in ('-p', '-l', '-i', '-o', '-F', '-J'):
                    words.pop(0)
            if not words:
                return None
            host = words.pop(0)
            env = self.default_env(host)
            command = childmod.shell_command(' '.join(words), env)
            if command is not None:
                env.update(command[0])
                words = command[1]
            cwd = None
            if not self.knows_host(host) or host in self.down_hosts():
                return self._failed(proc, argv, 255, host)
            if command is None or not words:
                return self._failed(proc, argv, 2, host)
        elif words and words[0] in ('mpirun', 'srun', 'mpiexec'):
            words.pop(0)
            while words and words[0].startswith('-'):
                opt = words.pop(0)
                if opt in ('-n', '-np', '-N', '-c', '-t', '-A') and words:
                    v = words.pop(0)
                    if opt in ('-n', '-np'):
                        count = int(v)
        if not words:
            return None
        name = os.path.basename(words[0])
        if name not in ('hs', 'hyper-shell'):
            if argv[0] == 'ssh':
                return self._failed(proc, argv, 127)
            return None
        if words[0] not in ('hs', 'hyper-shell') and words[0] not in self.exe_paths():
            return self._failed(proc, argv, 127) if argv[0] == 'ssh' else None
        procs = []
        for i in range(count):
            self.launch_seq += 1
            pname = f'launched{self.launch_seq}'
            p = self.process(pname, words, host=host, env=dict(env), ppid=proc.pid, cores=proc.cores,
                             cwd=cwd)
            procs.append(p)
            self.launched.append(p)
            self.sim.note('launch', proc, name=pname, argv=list(words), outer=list(argv), host=host, env_keys=sorted(env))
            hook = self.launch_hooks.get('*')
            if hook is not None:
                hook(p)
        return childmod.ProcChild(self, proc, argv, procs)

    def _failed(self, proc, argv, status, host=None):
        self.sim.note('launch-failed', proc, argv=list(argv), status=status, host=host)
        return childmod.Child(self, proc, ' '.join(argv), {'dur': 0.2, 'exit': status})

    def down_hosts(self):
        return getattr(self, '_down', ())

    def exe_paths(self):
        return getattr(self, '_exe', ())

    # ---- executions ------------------------------------------------------------------------

    def default_spec(self, command):
        return self.spec_default

    def record(self, child, proc, token, command, cwd, env, fds):
        rec = {'n': len(self.ledger), 'token': token, 'command': command, 'cwd': cwd,
               'env': {k: v for k, v in env.items() if k.startswith(('TASK_', 'HYPERSHELL_')) or k in self.watch_env()},
               'client': proc.name, 'host': proc.host, 'pid': child.pid, 'start': self.sim.now, 'end': None,
               'status': None, 'signals': []}
        child.record = rec
        self.ledger.append(rec)
        self.sim.note('exec', proc, n=rec['n'], token=token)

    def watch_env(self):
        return getattr(self, '_watch_env', ())

    def popen_error(self, proc, flat):
        for plan in self.popen_plan:
            if plan.get('left', 1) > 0 and plan['match'] in flat:
                plan['left'] = plan.get('left', 1) - 1
                self.sim.fault('popen-error')
                return OSError(plan['err'], os.strerror(plan['err']))
        return None

    # ---- files -----------------------------------------------------------------------------

    def check_path(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        full = os.path.realpath(path if os.path.isabs(path) else os.path.join(self.cwd, path))
        if not (full + '/').startswith(os.path.realpath(self.scratch) + '/'):
            raise PermissionError(errno.EACCES, 'Permission denied', path)
        return full

    def fs_fault(self, proc, kind, path):
        for plan in self.fs_plan:
            if plan.get('left', 1) > 0 and plan['kind'] == kind and plan.get('path', '') in path and \
                    plan.get('proc', proc.name) == proc.name:
                plan['left'] = plan.get('left', 1) - 1
                self.sim.fault(f'{kind}-error')
                raise OSError(plan['err'], os.strerror(plan['err']), path)

    def write_fault(self, proc, path, size):
        for plan in self.write_plan:
            if plan.get('proc', proc.name) != proc.name or plan.get('path', '') not in path:
                continue
            room = plan.get('after', 0)
            if size <= room and plan['err'] == errno.ENOSPC:
                plan['after'] = room - size
                return None
            if plan.get('left', 1) <= 0:
                continue
            if plan['err'] == errno.ENOSPC:
                plan['after'] = 0
                if room == 0:
                    plan['left'] = plan.get('left', 1) - 1
                    self.sim.fault('disk-full')
                    return OSError(errno.ENOSPC, 'No space left on device', path)
                self.sim.fault('short-write')
                return room
            plan['left'] = plan.get('left', 1) - 1
            self.sim.fault('write-error')
            return OSError(plan['err'], os.strerror(plan['err']), path)
        return None

    def open(self, proc, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
        if isinstance(file, int):
            return io.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        sim = self.sim
        writing = any(c in mode for c in 'wax+')
        full = path if os.path.isabs(path) else os.path.join(proc.cwd, path)
        sim.point(proc, 'fs-open')
        for plan in self.open_plan:
            if plan.get('left', 1) > 0 and plan.get('path', '') in full and \
                    plan.get('proc', proc.name) == proc.name and (writing or not plan.get('write_only', True)):
                plan['left'] = plan.get('left', 1) - 1
                sim.fault('open-error')
                raise OSError(plan['err'], os.strerror(plan['err']), path)
        if writing:
            self.check_path(full)
        text = 'b' not in mode
        base = mode.replace('b', '').replace('t', '')
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[
            base.replace('+', '')]
        if '+' in base:
            flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        if opener is not None:
            fd = opener(full, flags | os.O_CLOEXEC)
        else:
            fd = os.open(full, flags | os.O_CLOEXEC, 0o666)
        if os.path.isdir(full):
            os.close(fd)
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        raw = SimRaw(self, proc, path, fd, mode)
        if buffering == 0:
            f = raw
        elif '+' in base:
            f = io.BufferedRandom(raw)
        elif writing:
            f = io.BufferedWriter(raw)
        else:
            f = io.BufferedReader(raw)
        if text:
            f = io.TextIOWrapper(f, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
            f.mode = mode
        proc.files.append(f)
        if writing:
            sim.point(proc, 'fs-opened')
            sim.note('file-open', proc, path=full, mode=mode)
            self.files_opened.append((sim.now, proc.name, full, mode))
        sim.keep.append(f)
        return f
