"""subprocess: scripted task programs, launchers and ssh; the ground truth of what was executed."""

import errno
import os as _os
import re
import shlex
import signal as _signal
import subprocess as _sp
import types

from .kernel import NS, WaitQueue, HarnessError

PIPE, STDOUT, DEVNULL = _sp.PIPE, _sp.STDOUT, _sp.DEVNULL
TOKEN = re.compile(r'@([A-Za-z0-9]+)@')


class Child:
    """A program started by the code under test."""

    def __init__(self, world, parent, command, spec):
        self.world = world
        self.parent = parent
        self.command = command
        self.spec = spec
        self.pid = world.new_pid()
        self.returncode = None            # raw status
        self.wq = WaitQueue(world.sim)
        self.record = None
        self.fds = {}
        self.dead = False
        world.children[self.pid] = self

    def start(self):
        sim, spec = self.world.sim, self.spec
        dur = spec.get('dur', 0.0)
        outs = spec.get('out', [])
        for frac, stream, text in outs:
            sim.after(int(frac * dur * NS), lambda s=stream, t=text: self.emit(s, t))
        if dur is not None:
            sim.after(int(dur * NS) + 1000, lambda: self.finish(spec.get('exit', 0)))

    def emit(self, stream, text):
        if self.dead:
            return
        fd = self.fds.get(stream)
        data = text.encode("utf-8", "surrogateescape")
        if fd is None:
            return
        if callable(fd):
            fd(text)
        else:
            _os.write(fd, data)

    def finish(self, status):
        if self.dead:
            return
        self.dead = True
        self.returncode = status
        for fd in set(f for f in self.fds.values() if isinstance(f, int)):
            _os.close(fd)
        self.fds.clear()
        sim = self.world.sim
        if self.record is not None:
            self.record['end'] = sim.now
            self.record['status'] = status
            sim.note('exec-end', self.parent, n=self.record['n'], status=status)
        self.wq.wake_all()

    def signal(self, signum):
        if self.dead:
            return
        sim = self.world.sim
        signum = int(signum)
        if self.record is not None:
            self.record['signals'].append((sim.now, signum))
            sim.note('exec-signal', self.parent, n=self.record['n'], sig=signum)
        if signum == 0:
            return
        if signum != _signal.SIGKILL:
            if signum in self.spec.get('ignore', ()):
                return
            trap = self.spec.get('trap', {}).get(str(signum))
            if trap is not None:
                delay, status = trap
                sim.after(int(delay * NS), lambda: self.finish(status))
                return
            if signum in (_signal.SIGCHLD, _signal.SIGCONT, _signal.SIGWINCH):
                return
        delay = sim.span(0.002)
        sim.after(delay, lambda: self.finish(-signum))


class ProcChild(Child):
    """A started program that is itself simulated (hs …)."""

    def __init__(self, world, parent, command, procs):
        super().__init__(world, parent, command, {})
        self.procs = procs
        for p in procs:
            p.on_dead.append(self.check)

    def start(self):
        for p in self.procs:
            p.start()

    def check(self, _=None):
        if all(p.dead for p in self.procs):
            codes = [p.exit_code if p.exit_code is not None else -9 for p in self.procs]
            bad = [c for c in codes if c]
            self.finish(bad[0] if bad else 0)

    def signal(self, signum):
        for p in self.procs:
            p.deliver(int(signum))


def shell_command(text, env):
    """What a shell makes of a simple command line: (assignments, words), or None when it is something else (a list, a
    pipeline, a redirection, a substitution, an unfinished quotation)."""
    words, word, i = [], None, 0          # a word is [text, length of its unquoted start]
    def add(part, quoted):
        nonlocal word
        if word is None:
            word = ['', 0, False]
        if not quoted and not word[2]:
            word[1] += len(part)
        if quoted:
            word[2] = True
        word[0] += part
    def variable(i):
        m = re.match(r'\$(?:([A-Za-z_]\w*|[0-9?$!#@*-])|\{([A-Za-z_]\w*)\})', text[i:])
        if m:
            return env.get(m.group(1) or m.group(2), ''), i + m.end()
        if text[i:i + 2] in ('$(', '${', "$'"):
            return None, i
        return '$', i + 1
    while i < len(text):
        c = text[i]
        if c in ' \t':
            if word is not None:
                words.append(word)
            word, i = None, i + 1
        elif c == "'":
            j = text.find("'", i + 1)
            if j < 0:
                return None
            add(text[i + 1:j], True)
            i = j + 1
        elif c == '"':
            i += 1
            add('', True)
            while i < len(text) and text[i] != '"':
                if text[i] == '\\' and text[i + 1:i + 2] in ('"', '\\', '$', '`'):
                    add(text[i + 1], True)
                    i += 2
                elif text[i] == '$':
                    v, i = variable(i)
                    if v is None:
                        return None
                    add(v, True)
                elif text[i] == '`':
                    return None
                else:
                    add(text[i], True)
                    i += 1
            if i >= len(text):
                return None
            i += 1
        elif c == '\\':
            if i + 1 < len(text):
                add(text[i + 1], True)
            i += 2
        elif c == '$':
            v, i = variable(i)
            if v is None:
                return None
            parts = v.split()
            if v[:1].isspace() and word is not None:
                words.append(word)
                word = None
            for k, part in enumerate(parts):
                if k:
                    words.append(word)
                    word = None
                add(part, True)
            if v[-1:].isspace() and word is not None:
                words.append(word)
                word = None
        elif c in ';|&<>()`\n':
            return None
        elif c == '#' and word is None:
            break
        elif c == '~' and word is None:
            add(env.get('HOME', '~'), True)
            i += 1
        else:
            add(c, False)
            i += 1
    if word is not None:
        words.append(word)
    assigned = {}
    while words:
        m = re.match(r'[A-Za-z_]\w*=', words[0][0])
        if not m or m.end() > words[0][1]:
            break
        k, v = words.pop(0)[0].split('=', 1)
        assigned[k] = v
    return assigned, [w[0] for w in words]


def start_program(proc, args, shell, cwd, env, fds):
    """Decide what a command line is and start it."""
    world, sim = proc.world, proc.sim
    text = args if isinstance(args, str) else None
    words = None
    if text is None:
        words = [_os.fspath(a) for a in args]
        for w in words:
            if not isinstance(w, str):
                raise TypeError(f'expected str, bytes or os.PathLike object, not {type(w).__name__}')
        if shell:
            text = words[0]
    elif not shell:
        words = [text]
    flat = text if text is not None else ' '.join(words)
    if '\0' in flat:
        raise ValueError('embedded null byte')
    if any('\0' in v for v in env.values()):
        raise ValueError('embedded null byte')
    if len(flat) > world.arg_max:
        raise OSError(errno.E2BIG, 'Argument list too long')
    if cwd is not None and not _os.path.isdir(cwd):
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', cwd)
    sim.point(proc, 'popen')
    err = world.popen_error(proc, flat)
    if err is not None:
        raise err
    # launchers and hs itself
    launch = words
    if launch is None and text is not None and re.match(r'^\s*(\w+=\S*\s+)*(hs|hyper-shell|ssh|mpirun|srun)\s', text):
        try:
            launch = shlex.split(text)
        except ValueError:
            launch = None
    if launch is not None and not (shell and TOKEN.search(flat) and not launch[0] in ('hs', 'hyper-shell')):
        child = world.launch(proc, list(launch), dict(env), cwd)
        if child is not None:
            child.fds = {}
            child.cmd = flat
            return child
        if not shell:
            raise FileNotFoundError(errno.ENOENT, f'No such file or directory: {launch[0]!r}', launch[0])
    m = TOKEN.search(flat)
    spec = world.specs.get(m.group(1)) if m else None
    if spec is not None and 'seq' in spec:
        n = world.exec_counts[m.group(1)] = world.exec_counts.get(m.group(1), 0) + 1
        if n <= len(spec['seq']):
            spec = {**spec, **spec['seq'][n - 1]}
    child = Child(world, proc, flat, spec if spec is not None else world.default_spec(flat))
    world.record(child, proc, m.group(1) if m else None, flat, cwd, env, fds)
    return child


class Capture:
    def __init__(self):
        self.parts = []
        self.eof = False

    def __call__(self, text):
        self.parts.append(text.encode())

    def value(self):
        return b''.join(self.parts)


class PipeReader:
    """Read end of a child's output pipe."""

    def __init__(self, popen, cap, text):
        self.popen, self.cap, self.text = popen, cap, text

    def read(self, n=-1):
        self.popen.wait()
        data, self.cap.parts = self.cap.value(), []
        return data.decode() if self.text else data

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def readline(self):
        data = self.read()
        return data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def shell_value(text, proc):
    """What a shell expression prints: `echo WORD...`, `printenv NAME` or `cat FILE`."""
    name, *words = shlex.split(text)
    if name == 'echo':
        return (' '.join(words) + '\n').encode()
    if name == 'printenv' and words[0] in proc.environ:
        return (proc.environ[words[0]] + '\n').encode()
    if name == 'cat' and _os.path.isfile(words[0]):
        with open(words[0], 'rb') as f:
            return f.read()
    raise _sp.CalledProcessError(127 if name not in ('printenv', 'cat') else 1, text)


def make_subprocess_module(proc):
    world, sim = proc.world, proc.sim
    m = types.ModuleType('subprocess')
    for name in ('PIPE', 'STDOUT', 'DEVNULL', 'TimeoutExpired', 'CalledProcessError', 'SubprocessError',
                 'CompletedProcess', 'list2cmdline'):
        setattr(m, name, getattr(_sp, name))

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                     start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                     encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
            self.args = args
            self.returncode = None
            self._text = bool(text or universal_newlines or encoding)
            if env is None:
                env = dict(proc.environ)
            else:
                env = dict(env)
            for k, v in env.items():
                for x in (k, v):
                    if not isinstance(x, (str, bytes)):
                        raise TypeError(f'expected str, bytes or os.PathLike object, not {type(x).__name__}')
                if '=' in k:
                    raise ValueError('illegal environment variable name')
            if cwd is not None:
                cwd = _os.fspath(cwd)
            fds = {}
            self.stdin = self.stdout = self.stderr = None
            try:
                for name, h in (('out', stdout), ('err', stderr)):
                    fds[name] = self._handle(name, h, fds)
                self._child = start_program(proc, args, shell, cwd, env, fds)
            except BaseException:
                for fd in set(f for f in fds.values() if isinstance(f, int)):
                    _os.close(fd)
                raise
            if not self._child.fds:
                self._child.fds = fds
            if stdout is PIPE:
                self.stdout = PipeReader(self, fds['out'], self._text)
            if stderr is PIPE:
                self.stderr = PipeReader(self, fds['err'], self._text)
            self.pid = self._child.pid
            self._child.start()
            sim.point(proc, 'popen-done')
            sim.pause()

        @staticmethod
        def _handle(name, h, fds):
            if h is None:
                stream = proc.stdout if name == 'out' else proc.stderr
                return stream.write
            if h is PIPE:
                return Capture()
            if h is DEVNULL:
                return lambda text: None
            if h is STDOUT:
                first = fds['out']
                return _os.dup(first) if isinstance(first, int) else first
            if isinstance(h, int):
                return _os.dup(h)
            raw = getattr(h, 'sim_write', None)
            if raw is not None:
                return raw
            return _os.dup(h.fileno())       # raises ValueError on a closed file, like the real one

        def poll(self):
            if self.returncode is None and self._child.dead:
                self.returncode = self._child.returncode
            return self.returncode

        def wait(self, timeout=None):
            sim.point(proc, 'child-wait')
            if self.returncode is None:
                deadline = None if timeout is None else sim.now + int(timeout * NS)
                while not self._child.dead:
                    left = None
                    if deadline is not None:
                        left = deadline - sim.now
                        if left <= 0:
                            raise _sp.TimeoutExpired(self.args, timeout)
                    self._child.wq.wait(left)
                self.returncode = self._child.returncode
            sim.point(proc, 'child-reaped')
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.wait(timeout)
            return (self.stdout.read() if self.stdout else None, self.stderr.read() if self.stderr else None)

        def send_signal(self, sig):
            self.poll()
            if self.returncode is not None:
                return
            self._child.signal(int(sig))

        def terminate(self):
            self.send_signal(_signal.SIGTERM)

        def kill(self):
            self.send_signal(_signal.SIGKILL)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    def run(*args, input=None, capture_output=False, timeout=None, check=False, **kw):
        if capture_output:
            kw['stdout'] = kw['stderr'] = PIPE
        p = Popen(*args, **kw)
        try:
            out, err = p.communicate(input, timeout=timeout)
        except _sp.TimeoutExpired:
            p.kill()
            p.wait()
            raise
        code = p.poll()
        if check and code:
            raise _sp.CalledProcessError(code, p.args, output=out, stderr=err)
        return _sp.CompletedProcess(p.args, code, out, err)

    def check_output(*args, timeout=None, **kw):
        if sim.no_preempt or '@' not in args[0] and args[0].startswith(('echo ', 'printenv ', 'cat ')):  # settings given as a shell expression
            return shell_value(args[0], proc)
        return run(*args, stdout=PIPE, timeout=timeout, check=True, **kw).stdout

    def call(*args, timeout=None, **kw):
        return run(*args, timeout=timeout, **kw).returncode

    def check_call(*args, **kw):
        code = call(*args, **kw)
        if code:
            raise _sp.CalledProcessError(code, args[0])
        return 0

    def getoutput(cmd, **kw):
        return run(cmd, shell=True, stdout=PIPE, stderr=STDOUT, text=True).stdout.rstrip('\n')

    m.Popen, m.run, m.check_output, m.call, m.check_call, m.getoutput = (
        Popen, run, check_output, call, check_call, getoutput)
    return m
