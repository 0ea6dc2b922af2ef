"""Deterministic kernel: greenlet threads, virtual clock, seeded decisions, fault points."""

import heapq
import math
import random
from collections import deque

import greenlet

NS = 1_000_000_000
EPOCH = 1_700_000_000 * NS          # virtual wall clock at time zero
CHUNK = 4000                        # statements between forced reschedules
INF = 1 << 60


class HarnessError(Exception):
    """Something the simulator does not support or got wrong (never a violation)."""


class StopRun(BaseException):
    """Raised into the hub to end the run."""


class SimThread:
    __slots__ = ('sim', 'proc', 'name', 'g', 'state', 'token', 'woken', 'exc', 'tid', 'ident',
                 'on_exit', 'result', 'error', 'signal_ctx', 'wait_since')

    def __init__(self, sim, proc, name, fn):
        self.sim = sim
        self.proc = proc
        self.name = name
        self.state = 'new'
        self.token = 0
        self.woken = False
        self.exc = None
        self.error = None
        self.on_exit = []
        self.signal_ctx = False
        sim.tid_seq += 1
        self.tid = sim.tid_seq
        self.ident = self.tid + 1000
        self.g = greenlet.greenlet(lambda: self._main(fn), parent=sim.hub)

    def _main(self, fn):
        try:
            fn()
        except StopRun:
            raise
        except BaseException as exc:     # noqa
            self.error = exc
        self.state = 'dead'
        for cb in self.on_exit:
            cb(self)

    def __repr__(self):
        return f'<{self.proc.name if self.proc else "world"}/{self.name}#{self.tid}>'


class Sim:
    """One simulated execution."""

    def __init__(self, seed, knobs=None, decisions=None, record=True):
        knobs = dict(knobs or {})
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = decisions            # None, or {index: value}
        self.decisions = {}                # non-zero decisions taken
        self.dcount = 0
        self.hub = greenlet.getcurrent()
        self.tid_seq = 0
        self.now = 0                       # virtual ns since start
        self.tseq = 0
        self.timers = []
        self.runq = []
        self.current = None
        self.stopped = False
        self.stop_reason = None
        self.no_preempt = 0
        self.trace = 0                     # order in which threads ran
        self.digest = 0                    # … and when, to the nanosecond
        self.switches = 0
        self.statements = 0
        self.budget = CHUNK
        self.grant = CHUNK
        self.keep = []                     # dead things kept from garbage collection
        self.events = []
        self.eseq = 0
        self.watchers = []
        self.counters = {}
        self.fired = {}                    # fault kind -> number of times it actually fired
        self.probes = {}
        self.armed = {}                    # (proc, kind) -> [(n, action)]
        self.procs = []
        self.harness_error = None
        self.knobs = knobs
        self.mean = knobs.get('preempt', 0)        # mean statements between preemptions (0 = never)
        self.nap_p = knobs.get('nap_p', 0.0)       # chance that a preempted thread is descheduled for long
        self.nap_max = knobs.get('nap_max', 0.5)
        self.net_max = knobs.get('net_max', 0.001)  # one-way message latency (s)
        self.net_tail_p = knobs.get('net_tail_p', 0.0)
        self.net_tail = knobs.get('net_tail', 0.5)
        self.db_max = knobs.get('db_max', 0.0005)
        self.db_tail_p = knobs.get('db_tail_p', 0.0)
        self.db_tail = knobs.get('db_tail', 1.0)
        self.feeder_max = knobs.get('feeder_max', 0.001)
        self.feeder_tail_p = knobs.get('feeder_tail_p', 0.0)
        self.feeder_tail = knobs.get('feeder_tail', 0.5)
        self.max_statements = knobs.get('max_statements', 40_000_000)
        self.max_switches = knobs.get('max_switches', 3_000_000)
        self.states = set()
        self.fault_free_after = 0

    # ---- decisions -------------------------------------------------------------------------

    def draw(self, n):
        """An integer in [0, n); zero is always the simplest choice."""
        if n <= 1:
            return 0
        i = self.dcount
        self.dcount = i + 1
        if self.replay is not None:
            v = self.replay.get(i, 0)
            if v >= n:
                v %= n
        else:
            v = int(self.rng.random() * n)
        if v:
            self.decisions[i] = v
        return v

    def chance(self, p):
        if p <= 0:
            return False
        return self.draw(10000) >= 10000 - int(p * 10000)

    def span(self, limit):
        """A duration in ns between 0 and `limit` seconds."""
        if limit <= 0:
            return 0
        return int(self.draw(1001) * limit * NS) // 1000

    # ---- events ----------------------------------------------------------------------------

    def note(self, kind, proc=None, **data):
        self.eseq += 1
        ev = (self.eseq, self.now, kind, proc if isinstance(proc, str) else (proc.name if proc else None), data)
        self.events.append(ev)
        for w in self.watchers:
            w(ev)
        return ev

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def point(self, proc, kind):
        """A named place where a fault may be triggered."""
        pname = proc.name if proc is not None else None
        key = (pname, kind)
        c = self.counters.get(key, 0) + 1
        self.counters[key] = c
        lst = self.armed.get(key)
        if lst:
            for item in list(lst):
                if item[0] == c:
                    lst.remove(item)
                    item[1]()
        return c

    def arm(self, procname, kind, n, action):
        self.armed.setdefault((procname, kind), []).append((n, action))

    # ---- threads ---------------------------------------------------------------------------

    def spawn(self, proc, fn, name):
        t = SimThread(self, proc, name, fn)
        self.keep.append(t)
        if proc is not None:
            proc.threads.append(t)
        self._ready(t)
        return t

    def _ready(self, t):
        p = t.proc
        if p is not None:
            if p.dead:
                t.state = 'dead'
                return
            if p.frozen:
                t.state = 'ready'
                p.frozen_ready.append(t)
                return
        t.state = 'ready'
        self.runq.append(t)

    def wake(self, t):
        if t.state == 'parked':
            t.token += 1
            t.woken = True
            self._ready(t)

    def interrupt(self, t, exc):
        """Deliver an exception to a thread at its next resumption."""
        t.exc = exc
        if t.state == 'parked':
            t.token += 1
            t.woken = False
            self._ready(t)

    def at(self, when, fn):
        self.tseq += 1
        heapq.heappush(self.timers, (when, self.tseq, fn))

    def after(self, delta, fn):
        self.at(self.now + max(0, delta), fn)

    def _switch(self):
        used = self.grant - self.budget
        self.statements += used
        self.now += used * 1000 + 200
        self.hub.switch()

    def park(self, timeout=None):
        """Block the current thread; True if woken, False on timeout (ns)."""
        t = self.current
        if t is None:
            raise HarnessError('park outside of a simulated thread')
        if self.no_preempt:
            raise HarnessError(f'blocking call while preemption is disabled in {t}')
        t.token += 1
        t.woken = False
        t.state = 'parked'
        if timeout is not None:
            token = t.token
            self.at(self.now + max(0, timeout), lambda: self._expire(t, token))
        self._switch()
        if t.exc is not None:
            exc, t.exc = t.exc, None
            raise exc
        return t.woken

    def _expire(self, t, token):
        if t.state == 'parked' and t.token == token:
            t.woken = False
            self._ready(t)

    def sleep(self, ns):
        if ns <= 0:
            return self.yield_()
        self.park(ns)

    def yield_(self):
        if self.no_preempt or self.current is None:
            return
        t = self.current
        self._ready(t)
        self._switch()
        if t.exc is not None:
            exc, t.exc = t.exc, None
            raise exc

    def pause(self):
        """A place where the operating system may deschedule the thread."""
        if self.no_preempt or self.current is None or not self.mean:
            return
        if self.chance(self.nap_p):
            self.probe('nap')
            self.sleep(self.span(self.nap_max) + 1)
        elif self.draw(4) == 3:
            self.yield_()

    def new_grant(self):
        """Statements the next scheduled thread may run before it is preempted."""
        if self.mean:
            v = self.draw(4096)
            if v:
                n = int(-math.log(v / 4096.0) * self.mean) + 1
                if n < CHUNK:
                    return n
        return CHUNK

    def tick(self):
        """Called when a thread has used up its statement budget."""
        if self.no_preempt or self.current is None:
            self.statements += self.grant - self.budget
            self.grant = self.budget = CHUNK
            return
        full = self.grant >= CHUNK
        if not full and self.nap_p and self.chance(self.nap_p):
            self.probe('nap')
            self.sleep(self.span(self.nap_max) + 1)
        else:
            self.yield_()

    def never(self):
        """The current thread stops existing (its process died)."""
        self.current.state = 'dead'
        self.no_preempt = 0
        while True:
            self._switch()

    def stop(self, reason):
        self.stopped = True
        self.stop_reason = reason

    # ---- main loop -------------------------------------------------------------------------

    def run(self):
        runq, timers = self.runq, self.timers
        while not self.stopped:
            while timers and timers[0][0] <= self.now:
                heapq.heappop(timers)[2]()
                if self.stopped:
                    return
            n = len(runq)
            if n == 0:
                if not timers:
                    self.stop('quiescent')
                    return
                if timers[0][0] > self.now:
                    self.now = timers[0][0]
                continue
            i = self.draw(n) if n > 1 else 0
            t = runq.pop(i)
            if t.state != 'ready':
                continue
            t.state = 'running'
            self.current = t
            self.switches += 1
            self.trace = ((self.trace * 1000003) ^ (t.tid * 7919 + n)) & 0xFFFFFFFFFFFFFFFF
            self.digest = ((self.digest * 1000003) ^ (t.tid * 31 + self.now)) & 0xFFFFFFFFFFFFFFFF
            self.grant = self.budget = self.new_grant()
            t.g.switch()
            self.current = None
            if t.state == 'running':
                t.state = 'dead'
            if self.harness_error is not None:
                return
            if self.switches > self.max_switches or self.statements > self.max_statements:
                self.stop('steps')
                return


class WaitQueue:
    """Ordered set of parked threads."""
    __slots__ = ('sim', 'q')

    def __init__(self, sim):
        self.sim = sim
        self.q = deque()

    def wait(self, timeout=None):
        t = self.sim.current
        self.q.append(t)
        try:
            return self.sim.park(timeout)
        finally:
            if not t.woken:
                try:
                    self.q.remove(t)
                except ValueError:
                    pass

    def wake_one(self):
        q = self.q
        while q:
            if len(q) > 1:
                i = self.sim.draw(len(q))
                t = q[i]
                del q[i]
            else:
                t = q.popleft()
            if t.state == 'parked':
                self.sim.wake(t)
                return True
            if t.state == 'dead':
                continue
        return False

    def wake_all(self):
        while self.q:
            t = self.q.popleft()
            if t.state == 'parked':
                self.sim.wake(t)
