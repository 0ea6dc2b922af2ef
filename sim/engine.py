"""Runs one scenario under one schedule and hands the recorded history to the oracle."""

import errno
import json
import os
import re
import shutil
import signal
import sys
import traceback

from . import db as dbmod
from . import kernel
from .kernel import NS, HarnessError
from .world import World

SIGS = {n: getattr(signal, n) for n in ('SIGUSR1', 'SIGUSR2', 'SIGINT', 'SIGTERM', 'SIGKILL', 'SIGSTOP', 'SIGCONT')}


class Dispatch:
    """Real sys.stdout/stderr: goes to the simulated process that is running."""

    def __init__(self, sim, name, real):
        self._sim, self._name, self._real = sim, name, real
        self.encoding = 'utf-8'

    def _target(self):
        t = self._sim.current
        return getattr(t.proc, self._name) if t is not None and t.proc is not None else self._real

    def write(self, text):
        return self._target().write(text)

    def flush(self):
        pass

    def __getattr__(self, name):
        return getattr(self._target(), name)


class Run:
    """Everything an oracle may look at."""

    def __init__(self, sim, world, scenario):
        self.sim = sim
        self.world = world
        self.scenario = scenario
        self.procs = world.procs
        self.ledger = world.ledger
        self.violations = []
        self.tables = {}
        self._history = None

    @property
    def events(self):
        return self.sim.events

    def fail(self, sig, msg, t=None, prop=None):
        self.violations.append({'property': prop or self.scenario['prop'], 'sig': sig, 'msg': msg,
                                't': None if t is None else round(t / NS, 6)})

    # ---- views of the recorded history -----------------------------------------------------

    def rows(self, path=None):
        """Final task rows by id."""
        return {k[1]: v for k, v in self.final(path).items() if k[0] == 'task'}

    def clients(self, path=None):
        return {k[1]: v for k, v in self.final(path).items() if k[0] == 'client'}

    def final(self, path=None):
        path = path or self.db_path()
        if path not in self.tables:
            self.tables[path] = dbmod.read_tables(path) or {} if os.path.exists(path) else {}
        return self.tables[path]

    def db_path(self):
        return os.path.join(self.world.scratch, 'hs.db')

    def changes(self):
        """All committed row changes in order: (seq, t, proc, table, id, old, new)."""
        if self._history is None:
            out = []
            for seq, t, kind, proc, data in self.sim.events:
                if kind == 'db' and data['base'] != 'other.db':      # the database of an unrelated service
                    for (table, rid), old, new in data['changes']:
                        out.append((seq, t, proc, table, rid, old, new))
            self._history = out
        return self._history

    def of_kind(self, *kinds):
        return [e for e in self.sim.events if e[2] in kinds]

    def read_file(self, rel):
        path = os.path.join(self.world.scratch, rel)
        if not os.path.exists(path):
            return None
        with open(path, newline='') as f:
            return f.read()


def subst(value, scratch):
    if isinstance(value, str):
        return value.replace('%S%', scratch)
    if isinstance(value, list):
        return [subst(v, scratch) for v in value]
    if isinstance(value, dict):
        return {k: subst(v, scratch) for k, v in value.items()}
    return value


class Director:
    """Starts processes and injects faults as the scenario says."""

    def __init__(self, sim, world, scenario):
        self.sim, self.world, self.sc = sim, world, scenario
        self.waiting = {}            # name -> specs, to be started after another process ends
        self.upon = []               # [proc, kind, remaining, spec]: started after the n-th such event
        self.pending = 0

    def setup(self):
        sim, world, sc = self.sim, self.world, self.sc
        for rel, text in sc.get('files', {}).items():
            path = os.path.join(world.scratch, rel)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w', newline='') as f:
                f.write(text)
        for host, env in sc.get('host_env', {}).items():
            world.hosts.add(host)
            world.host_env[host] = env
        for host in sc.get('hosts', []):
            world.hosts.add(host)
        for host, skew in sc.get('skew', {}).items():
            world.host_skew[host] = int(skew * NS)
        world._down = set(sc.get('down_hosts', ()))
        world._watch_env = set(sc.get('watch_env', ()))
        world._exe = set(sc.get('exe_paths', ()))
        world.write_plan = [dict(p, err=getattr(errno, p['err'])) for p in sc.get('write_plan', [])]
        world.open_plan = [dict(p, err=getattr(errno, p['err'])) for p in sc.get('open_plan', [])]
        world.fs_plan = [dict(p, err=getattr(errno, p['err'])) for p in sc.get('fs_plan', [])]
        world.popen_plan = [dict(p, err=getattr(errno, p['err'])) for p in sc.get('popen_plan', [])]
        world.db.fault_plan = [dict(p) for p in sc.get('db_plan', [])]
        if 'spec_default' in sc:
            world.spec_default = sc['spec_default']
        for spec in sc['procs']:
            self.plan(spec)
        for f in sc.get('faults', []):
            self.plan_fault(f)
        sim.watchers.append(self.watch)
        sim.at(int(sc.get('horizon', 600) * NS), lambda: sim.stop('horizon'))

    def plan(self, spec):
        if 'after' in spec:
            self.waiting.setdefault(spec['after'], []).append(spec)
            return
        if 'upon' in spec:
            proc, kind, n = spec['upon']
            self.upon.append([proc, kind, n, spec])
            return
        self.pending += 1
        self.sim.at(int(spec.get('at', 0) * NS), lambda: self.launch(spec))

    def launch(self, spec):
        self.pending -= 1
        world = self.world
        host = spec.get('host', 'h0')
        world.hosts.add(host)
        env = world.default_env(host)
        env.update(spec.get('env', {}))
        for k in [k for k, v in env.items() if v is None]:
            del env[k]
        base = self.sim.now / NS if spec.get('stdin_relative', True) else 0
        feed = [(base + t, line) for t, line in spec.get('stdin', [])]
        p = world.process(spec['name'], [self.resolve(a) for a in spec['argv']], host=host, env=env, stdin=feed,
                          skew=spec.get('skew', 0.0), cores=spec.get('cores', 4), cwd=spec.get('cwd'))
        if spec.get('script'):
            p.script = spec['script']
            p.bare = spec.get('bare', False)
        p.thread_limit = spec.get('thread_limit')
        p.start()

    def resolve(self, arg):
        """Arguments known only at run time: what another process printed, or the id of the n-th stored task."""
        if not isinstance(arg, str) or '%' not in arg:
            return arg
        def printed(m):
            p = self.world.procs.get(m[1])
            return p.stdout.text().strip() if p else ''
        def task(m):
            ids = [rid for ev in self.sim.events if ev[2] == 'db' for (table, rid), old, new in ev[4]['changes']
                   if table == 'task' and old is None]
            return ids[int(m[1]) % len(ids)] if ids else '00000000-0000-4000-8000-000000000000'
        return re.sub(r'%task:(\d+)%', task, re.sub(r'%out:(\w+)%', printed, arg))

    def watch(self, ev):
        for item in self.upon:
            if item[0] == ev[3] and item[1] == ev[2] and item[2] > 0:
                item[2] -= 1
                if item[2] == 0:
                    self.pending += 1
                    self.sim.after(int(item[3].get('delay', 0.5) * NS), lambda s=item[3]: self.launch(s))
        if ev[2] == 'proc-end':
            name = ev[3]
            for spec in self.waiting.pop(name, []):
                self.pending += 1
                self.sim.after(int(spec.get('delay', 1.0) * NS), lambda s=spec: self.launch(s))
            self.sim.after(1, self.check_end)

    def thaw(self, p):
        self.pending -= 1
        p.thaw()
        self.sim.after(1, self.check_end)

    def check_end(self):
        if self.pending:
            return
        for p in self.world.procs.values():
            if not p.helper and not p.dead and p.started is not None and not p.frozen:
                return
        self.sim.stop('done')

    def plan_fault(self, f):
        def act():
            try:
                self.act(f)
            except HarnessError as exc:
                self.sim.harness_error = exc
        if 'on' in f:
            proc, point, n = f['on']
            self.sim.arm(proc, point, n, act)
        else:
            self.sim.at(int(f['at'] * NS), act)

    def act(self, f):
        sim, world = self.sim, self.world
        do = f['do']
        p = world.procs.get(f['proc']) if 'proc' in f else None
        if 'proc' in f and (p is None or (p.dead and do not in ('revive',))):
            return
        name = f.get('name', do)
        if do == 'kill':
            sim.fault(name)
            sim.note('fault', p, do=do)
            world.crash_service(p)
        elif do == 'sigkill':
            sim.fault(name)
            sim.note('fault', p, do=do)
            p.deliver(signal.SIGKILL)
        elif do == 'signal':
            sim.fault(f['sig'])
            sim.note('fault', p, do=do, sig=f['sig'])
            p.deliver(SIGS[f['sig']])
        elif do == 'freeze':
            sim.fault(name)
            sim.note('fault', p, do=do)
            if 'for' in f:
                self.pending += 1
                sim.after(int(f['for'] * NS), lambda: self.thaw(p))
            p.freeze()
        elif do == 'partition':
            host = f['host']
            sim.fault(name)
            sim.note('fault', None, do=do, host=host)
            world.partitions.add(host)
            sim.after(int(f['for'] * NS), lambda: (world.heal(), sim.note('healed', None)))
        elif do == 'reset':
            sim.fault(name)
            sim.note('fault', p, do=do)
            world.reset_connections(p)
        elif do == 'jump':
            sim.fault(name)
            sim.note('fault', None, do=do, host=f['host'], by=f['by'])
            world.host_skew[f['host']] = world.host_skew.get(f['host'], 0) + int(f['by'] * NS)
        elif do == 'net':
            sim.fault(name)
            for k, v in f['set'].items():
                setattr(sim, k, v)
        elif do == 'db':
            world.db.fault_plan.append(dict(f['plan']))
        elif do == 'crash-host':
            sim.fault(name)
            sim.note('fault', None, do=do, host=f['host'])
            world.crash_host(f['host'])
        else:
            raise HarnessError(f'unknown fault {do}')


def execute(scenario, scratch, decisions=None, judge=None, want_events=False):
    """Run in the current (forked) process. Returns a plain result dict."""
    sc = subst(scenario, scratch)
    sim = kernel.Sim(sc['seed'], sc.get('knobs'), decisions)
    dbmod.install(sim)
    out, err = sys.stdout, sys.stderr
    result = {'violations': [], 'error': None}
    try:
        world = World(sim, scratch, sc.get('specs'), sc.get('env'))
        d = Director(sim, world, sc)
        d.setup()
        sys.stdout, sys.stderr = Dispatch(sim, 'stdout', out), Dispatch(sim, 'stderr', err)
        try:
            sim.run()
        finally:
            sys.stdout, sys.stderr = out, err
            sim.current = None
        for t in sim.keep:
            e = getattr(t, 'error', None)
            if isinstance(e, HarnessError):
                raise e
        if sim.harness_error:
            raise sim.harness_error
        run = Run(sim, world, sc)
        run.director = d
        if judge is not None:
            try:
                judge(run)
            except Exception:
                if not run.violations:
                    raise
        result['violations'] = run.violations
        result['trace'] = f'{sim.trace:016x}'
        result['digest'] = f'{sim.digest:016x}'
        result['sim_s'] = sim.now / NS
        result['switches'] = sim.switches
        result['statements'] = sim.statements
        result['stop'] = sim.stop_reason
        result['fired'] = sim.fired
        result['probes'] = sim.probes
        result['execs'] = len(world.ledger)
        result['nontrivial'] = getattr(run, 'nontrivial', len(world.ledger) > 0)
        result['decisions'] = sim.decisions
        result['draws'] = sim.dcount
        if want_events:
            result['events'] = [repr(e) for e in sim.events]
            result['output'] = {p.name: (p.exit_code, p.stdout.text(), p.stderr.text()) for p in world.procs.values()}
    except BaseException as exc:      # noqa
        sys.stdout, sys.stderr = out, err
        result['error'] = ''.join(traceback.format_exception(exc))
    return result
