"""C23: settings take effect from every documented place, in the documented order."""

import re
import shlex

import toml

from .common import *

RULE = ('a run counts when a setting given in at least one place was seen to govern what the system did; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['files are complete and correct TOML', 'settings are read when a program starts',
               'delays of the network, the database and the computer stay below the differences between the values that '
               'were given (calm runs)', 'text is given in quotation marks in files',
               'a setting given by a shell expression is an `echo`, `printenv` or `cat`']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}

PLACES = ['system', 'user', 'local', 'env']
FILES = {'system': 'root-h0/etc/hypershell.toml', 'user': 'home/.hypershell/config.toml', 'local': 'site-h0/config.toml',
         'one': 'one.toml'}
DEFAULTS = {'server.port': 50001, 'server.bind': 'localhost', 'server.bundlesize': 1, 'server.queuesize': 1,
            'server.attempts': 1, 'server.eager': False, 'server.wait': 5, 'client.bundlesize': 1, 'client.bundlewait': 5,
            'client.heartrate': 10, 'submit.bundlesize': 1, 'submit.bundlewait': 5, 'task.signalwait': 10,
            'autoscale.size.init': 1, 'autoscale.size.min': 0, 'autoscale.size.max': 2, 'autoscale.period': 60,
            'autoscale.policy': 'fixed', 'logging.level': 'warning', 'task.timeout': None, 'client.timeout': None,
            'server.evict': 600}
LEVELS = ['TRACE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
STYLES = {'default': r'^ *LEVEL \[hypershell\.\S+\] ', 'detailed': r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \S+  *LEVEL \[hypershell\.\S+\] ',
          'system': r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \S+  *LEVEL \[\S+\] \[hypershell\.\S+\] ',
          'detailed-compact': r'^\d\d-\d\d:\d\d:\d\d\.\d{3} \[\S+\]  *LEVEL \[\S+\] '}


class Places:
    """Where every setting is given and which place counts."""

    def __init__(self, b, rng):
        self.b, self.rng = b, rng
        self.mode = rng.choice(['all', 'all', 'all', 'all', 'one', 'one', 'none'])
        self.files = {k: {} for k in FILES}
        self.flags = []
        self.known = {}
        env = b.sc['env']
        env.pop('HYPERSHELL_LOGGING_LEVEL')
        env['HYPERSHELL_CONFIG_FILE'] = {'all': None, 'one': '%S%/' + FILES['one'], 'none': ''}[self.mode]

    def counted(self):
        return {'all': PLACES, 'one': ['one', 'env'], 'none': ['env']}[self.mode]

    def put(self, place, path, value):
        *sections, name = path.split('.')
        d = self.files[place]
        for s in sections:
            d = d.setdefault(s, {})
        d[name] = value

    def give(self, path, values, flag=None, cli=lambda v: v, variant=False, env=True, show=True, must=False):
        """Give the setting in some places; returns the value that counts. `values` are all different."""
        rng = self.rng
        places = [p for p in PLACES if env or p != 'env'] + (['one'] if self.mode == 'one' else [])
        chosen = [p for p in places if rng.random() < 0.5]
        if flag and rng.random() < 0.35:
            chosen.append('cli')
        counts = self.counted() + ['cli']
        if not set(chosen) & set(counts) and (must or path not in DEFAULTS or rng.random() < 0.9):
            chosen.append(rng.choice([p for p in counts if p in places or p == 'cli' and flag] or ['one']))
            if chosen[-1] not in places and chosen[-1] != 'cli':
                chosen.pop()
        pool = list(values)
        rng.shuffle(pool)
        assert len(pool) >= 5, path
        best, value, plain = None, DEFAULTS.get(path), True
        for place in [p for p in [*PLACES[:3], 'one', 'env', 'cli'] if p in chosen]:
            v = pool.pop() if len(pool) > 1 else pool[0]
            how = 'plain'
            if place == 'cli':
                self.flags += [flag] if v is True else [flag, str(cli(v))]
            elif place == 'env':
                self.b.sc['env']['HYPERSHELL_' + path.upper().replace('.', '_')] = \
                    str(v).lower() if isinstance(v, bool) else str(v)
            elif variant and rng.random() < 0.25:
                how = rng.choice(['env', 'eval', 'eval'])
                if how == 'env':
                    name = f'MY_{path.upper().replace(".", "_")}_{place.upper()}'
                    self.b.sc['env'][name] = str(v)
                    self.put(place, path + '_env', name)
                else:
                    self.put(place, path + '_eval', f'echo {shlex.quote(str(v))}')
            else:
                self.put(place, path, v)
            if place in counts:
                best, value, plain = place, v, how == 'plain'
                if place != 'cli':
                    self.known[path] = (place, v, plain)
        if best is None and not chosen:
            pass
        self.b.meta.setdefault('given', {})[path] = [value, best]
        return value

    def finish(self):
        rng = self.rng
        for place, data in self.files.items():
            if place == 'one' and self.mode != 'one':
                continue
            if rng.random() < 0.3:
                data.setdefault('console', {})['theme'] = 'monokai'
            if data or rng.random() < 0.2 or place == 'one':
                self.b.sc['files'][FILES[place]] = toml.dumps(data)

    def show(self):
        """Ask the program itself."""
        b, rng = self.b, self.rng
        shown = []
        for path, (place, v, plain) in self.known.items():
            if not plain or path.startswith('ssh.nodelist') or rng.random() < 0.6:
                continue
            k = len(shown)
            b.proc(f'get{k}', ['hs', 'config', 'get', path, '-r'], at=round(rng.uniform(0, 3), 2))
            b.proc(f'which{k}', ['hs', 'config', 'which', path, '--site'], at=round(rng.uniform(0, 3), 2))
            text = json.dumps(v).strip('"')
            shown.append([k, path, text, 'local' if place == 'one' else place])
        b.meta['shown'] = shown


KINDS = ['net', 'net', 'sched', 'sched', 'poll', 'client', 'client', 'client', 'task', 'task', 'submit', 'submit', 'cluster',
         'ssh', 'autoscale', 'log', 'evict']


def generate(rng, i, tier):
    b = Builder(rng, calm=True, horizon=400)
    b.sc['knobs'] = {'preempt': 0.0, 'net_max': 0.001, 'db_max': 0.0005, 'feeder_max': 0.001}
    if rng.random() < 0.4:
        b.sc['knobs'].update(preempt=0.02, net_max=0.02, db_max=0.005)
    P = Places(b, rng)
    kind = rng.choice(KINDS)
    b.meta['kind'] = kind
    GEN[kind](b, rng, P)
    P.finish()
    P.show()
    return b.done()


def decoys(P, *paths):
    """The same option in other sections."""
    for p in paths:
        if P.rng.random() < 0.6:
            P.give(p, [31, 37, 41, 43, 47, 53])


def gen_net(b, rng, P):
    port = P.give('server.port', rng.sample(range(1025, 60000), 6), '-p', variant=True)
    bind = P.give('server.bind', ['localhost', '127.0.0.1', '0.0.0.0', 'h0', ''][:4] + ['0.0.0.0'])
    auth = P.give('server.auth', ['sesame', '007', '1e5', 'true', 'two words', 'k' * 40, '20240101', 'clé'], '-k', variant=True)
    lines = b.tasks(4, dur=(0, 1), weird=0)
    b.proc('server', ['hs', 'server', b.file('tasks.txt', lines), *P.flags])
    same = rng.random() < 0.75
    args = list(P.flags)
    want = [port, auth]
    if not same:
        if rng.random() < 0.5:
            args += ['-p', str(port + 1)]
            want[0] = port + 1
        else:
            args += ['-k', str(auth) + 'x']
            want[1] = str(auth) + 'x'
    far = rng.random() < 0.3
    if far:
        args += ['-H', 'h0']
        b.sc['host_env'] = {'h1': {'HYPERSHELL_SERVER_PORT': str(port), 'HYPERSHELL_SERVER_AUTH': str(auth)}}
    b.proc('client', ['hs', 'client', '-w', '1', *args], host='h1' if far else 'h0', upon=['server', 'listen', 1],
           delay=0.5)
    b.sc['horizon'] = 120
    b.meta.update(port=port, bind=bind, far=far, want=want, auth=auth)


def judge_net(run, meta, lag):
    listen = [d for seq, t, kind, proc, d in run.events if kind == 'listen']
    if not listen:
        return run.fail('setting', f'the server does not accept connections: {run.procs["server"].stderr.text()[-400:]!r}')
    if listen[0]['port'] != meta['port']:
        return run.fail('setting', f"server.port is {meta['port']}, the server listens on {listen[0]['port']}")
    scope = 'local' if meta['bind'] in ('localhost', '127.0.0.1') else 'any'
    if listen[0]['scope'] != scope:
        return run.fail('setting', f"server.bind is {meta['bind']!r}, the server accepts {listen[0]['scope']} connections")
    run.nontrivial = True
    ok = meta['want'] == [meta['port'], meta['auth']] and not (meta['far'] and scope == 'local')
    there = any(kind == 'connected' and proc == 'client' for seq, t, kind, proc, d in run.events)
    if ok:
        ended(run, ['server', 'client'])
        all_complete(run)
    elif there or run.ledger:
        run.fail('setting', f"a client with port {meta['want'][0]} and key {meta['want'][1]!r} connected to a server bound to "
                 f"{meta['bind']!r} with port {meta['port']} and key {meta['auth']!r}")
    elif not run.procs['client'].dead or run.procs['client'].exit_code == 0:
        run.fail('setting', 'the client that could not connect did not end with an error')


def gen_sched(b, rng, P):
    focus = rng.choice(['size', 'size', 'attempts', 'eager'])
    n = rng.randint(8, 18)
    size = queue = 1
    attempts, eager = 1, False
    if focus == 'size':
        size = P.give('server.bundlesize', [1, 2, 3, 4, 5, 7], '-b', variant=True)
        decoys(P, 'submit.bundlesize', 'client.bundlesize')
        queue = P.give('server.queuesize', [1, 2, 3, 4, 5, 6])
        lines = b.tasks(n, dur=(0, 0.3), fail=0, weird=0)
    elif focus == 'attempts':
        attempts = P.give('server.attempts', [1, 2, 3, 4, 5], '-r', cli=lambda v: v - 1)
        n = rng.randint(1, 4)
        lines = [b.line(b.token(dur=0.2, exit=3), 0) for _ in range(n)]
    else:
        eager = give_flag(P, 'server.eager', '--eager')
        attempts = 2
        P.flags += ['-r', '1']
        n = 18
        lines = [b.line(b.token(dur=1.0, exit=0, seq=[{'exit': 1}]), 0)] + \
            [b.line(b.token(dur=1.0, exit=0), 0) for _ in range(n - 1)]
    b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', '100'])
    b.proc('server', ['hs', 'server', '--restart', *P.flags, '-k', KEY, '-p', PORT], after='submit', delay=1)
    b.proc('client', ['hs', 'client', '-b', '1', '-w', '1', '-k', KEY, '-p', PORT], upon=['server', 'listen', 1], delay=30)
    b.meta.update(n=n, size=size, queue=queue, attempts=attempts, eager=eager, focus=focus)


def give_flag(P, path, flag):
    """A setting that is true or false; the option on the command line can only turn it on."""
    rng, b = P.rng, P.b
    value, best = DEFAULTS[path], None
    for place in PLACES + (['one'] if P.mode == 'one' else []):
        pass
    order = [*PLACES[:3], *(['one'] if P.mode == 'one' else []), 'env']
    for place in order:
        if rng.random() < 0.5:
            v = rng.random() < 0.5
            if place == 'env':
                b.sc['env']['HYPERSHELL_' + path.upper().replace('.', '_')] = str(v).lower()
            else:
                P.put(place, path, v)
            if place in P.counted():
                value, best = v, place
                P.known[path] = (place, v, True)
    if rng.random() < 0.25:
        P.flags.append(flag)
        value, best = True, 'cli'
    b.meta.setdefault('given', {})[path] = [value, best]
    return value


def judge_sched(run, meta, lag):
    h = history(run)
    if len(h.roots()) != meta['n']:
        return run.fail('setting', f"{len(h.roots())} tasks were stored, {meta['n']} were submitted")
    begin = next((t for seq, t, kind, proc, d in run.events if kind == 'proc-start' and proc == 'client'), None)
    if begin is None:
        return run.fail('setting', f'the server does not accept connections: {run.procs["server"].stderr.text()[-400:]!r}')
    run.nontrivial = True
    ended(run, ['server', 'client'])
    if meta['focus'] == 'size':
        ahead = [len(d['obj']) for seq, t, kind, proc, d in run.events
                 if kind == 'q-put' and d['q'] == 'scheduled' and d['obj'] and t < begin]
        whole, rest = divmod(meta['n'], meta['size'])
        want = ([meta['size']] * whole + [rest] * bool(rest))[:meta['queue']]
        if ahead != want:
            run.fail('setting', f"server.bundlesize is {meta['size']} and server.queuesize {meta['queue']}: bundles of sizes {want} "
                     f"were expected to wait for the first client, there were {ahead}")
    elif meta['focus'] == 'attempts':
        if len(run.ledger) != meta['n'] * meta['attempts']:
            run.fail('setting', f"server.attempts is {meta['attempts']}: {meta['n']} tasks that always fail were executed "
                     f"{len(run.ledger)} times")
    else:
        order = [r['token'] for r in sorted(run.ledger, key=lambda r: r['start'])]
        again = [k for k, x in enumerate(order) if x == order[0]]
        if len(order) != meta['n'] + 1 or len(again) != 2:
            run.fail('setting', f'the failed task was executed {len(again)} times, there were {len(order)} executions')
        elif meta['eager'] and again[1] > 12 or not meta['eager'] and again[1] != meta['n']:
            run.fail('setting', f"server.eager is {meta['eager']}: the failed task was repeated as number {again[1] + 1} of {len(order)}")


def gen_poll(b, rng, P):
    wait = P.give('server.wait', [2, 9, 14, 20, 27])
    decoys(P, 'submit.bundlewait', 'client.bundlewait')
    lines = [b.line(b.token(dur=0.1, exit=0), 0) for _ in range(150)]
    b.proc('server', ['hs', 'server', '--forever', '-b', '100', '-k', KEY, '-p', PORT])
    b.proc('submit', ['hs', 'submit', '-', '-b', '1', '-w', '1'], stdin=[[10 + 0.8 * k, x + '\n'] for k, x in enumerate(lines)] + [[200, '']])
    b.proc('client', ['hs', 'client', '-N', '4', '-b', '1', '-w', '1', '-k', KEY, '-p', PORT], upon=['server', 'listen', 1], delay=1)
    b.sc['horizon'] = 125
    b.meta['wait'] = wait


def judge_poll(run, meta, lag):
    times = [t for seq, t, kind, proc, d in run.events if kind == 'q-put' and d['q'] == 'scheduled' and d['obj'] and t > 12 * NS]
    gaps = sorted((y - x) / NS for x, y in zip(times, times[1:]))
    if len(gaps) < 3:
        return run.fail('setting', f"server.wait is {meta['wait']}: only {len(times)} bundles in {run.sim.now / NS:.0f}s")
    run.nontrivial = True
    mid = gaps[len(gaps) // 2]
    if not meta['wait'] - 0.05 <= mid <= meta['wait'] + 0.8 + lag or gaps[-1] > meta['wait'] + 0.8 + lag:
        run.fail('setting', f"server.wait is {meta['wait']}: new tasks were looked for every {mid:.1f}s (at most {gaps[-1]:.1f}s)")


def gen_client(b, rng, P):
    focus = rng.choice(['size', 'wait', 'heart', 'timeout'])
    b.meta['focus'] = focus
    args = ['-k', KEY, '-p', PORT]
    tasks = lambda n, dur: [b.line(b.token(dur=dur, exit=0), 0) for _ in range(n)]
    if focus == 'size':
        v = P.give('client.bundlesize', [1, 2, 3, 4, 5, 6], '-b', variant=True)
        w = P.give('client.bundlewait', [100, 101, 102, 103, 104], '-w', must=True)
        decoys(P, 'submit.bundlesize', 'server.bundlesize')
        lines = tasks(2 * v + 1, 0.7)
        b.meta.update(n=2 * v + 1)
    elif focus == 'wait':
        v = P.give('client.bundlewait', [3, 7, 11, 15, 20], '-w', variant=True)
        P.give('client.bundlesize', [60, 61, 62, 63, 64], '-b', must=True)
        decoys(P, 'submit.bundlewait')
        lines = tasks(70, 1.0)
    elif focus == 'heart':
        v = P.give('client.heartrate', [2, 4, 7, 15, 23])
        lines = tasks(4, 30.0)
    else:
        v = P.give('client.timeout', [4, 12, 20, 28, 36], '-T', variant=True)
        lines = tasks(3, 0.5)
    mode = ['--forever'] if focus == 'timeout' else [b.file('tasks.txt', lines)]
    if focus == 'timeout':
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', '100'])
    more = [] if focus in ('size', 'wait') else ['-b', '1', '-w', '1']
    b.proc('server', ['hs', 'server', *mode, '-b', '1', *args], **({'after': 'submit'} if focus == 'timeout' else {}), delay=1)
    b.proc('client', ['hs', 'client', *args, *more, *P.flags], upon=['server', 'listen', 1], delay=0.5)
    b.sc['horizon'] = 100 if focus == 'timeout' else 400
    b.meta['value'] = v


def judge_client(run, meta, lag):
    focus, v = meta['focus'], meta['value']
    puts = {q: [(t, d['obj']) for seq, t, kind, proc, d in run.events
                if kind == 'rpc' and proc == 'client' and d['q'] == q and d['m'] == 'put' and d['obj']]
            for q in ('completed', 'heartbeat')}
    if not run.ledger:
        return run.fail('setting', f'nothing was executed: {run.procs["server"].stderr.text()[-300:]!r}')
    run.nontrivial = True
    if focus != 'timeout':
        ended(run, ['server', 'client'])
    if focus == 'size':
        sizes = [len(obj) for t, obj in puts['completed']]
        if sizes[:2] != [v, v] or sum(sizes) != meta['n']:
            run.fail('setting', f'client.bundlesize is {v}: results of {meta["n"]} tasks were returned in bundles of {sizes}')
    elif focus == 'wait':
        times = [t for t, obj in puts['completed']][:-1]
        gaps = [(y - x) / NS for x, y in zip(times, times[1:])]
        if not gaps or min(gaps) < v - 0.1 or max(gaps) > v + 2 + lag:
            run.fail('setting', f'client.bundlewait is {v}: results were returned after {[round(g, 1) for g in gaps]}s')
    elif focus == 'heart':
        times = [t for t, obj in puts['heartbeat']][1:-1]
        gaps = [(y - x) / NS for x, y in zip(times, times[1:])]
        if not gaps or min(gaps) < v - 0.1 or max(gaps) > v + 1 + lag:
            run.fail('setting', f'client.heartrate is {v}: signs of life were sent after {[round(g, 1) for g in gaps]}s')
    else:
        got = max(t for seq, t, kind, proc, d in run.events
                  if kind == 'rpc-ok' and proc == 'client' and d['q'] == 'scheduled' and d['m'] == 'get')
        p = run.procs['client']
        if v is None:
            if p.dead:
                run.fail('setting', f'client.timeout is not set: the client ended at {as_s(p.exit_time)}')
            return
        if not p.dead:
            run.fail('setting', f'client.timeout is {v}: the client did not end')
        elif not v - 0.1 <= (p.exit_time - got) / NS <= v + 6 + lag:
            run.fail('setting', f'client.timeout is {v}: the client ended {(p.exit_time - got) / NS:.1f}s after the last bundle')


def gen_task(b, rng, P):
    focus = rng.choice(['limit', 'env', 'env'])
    b.meta['focus'] = focus
    cluster = rng.random() < 0.4
    if focus == 'limit':
        limit = P.give('task.timeout', [3, 9, 15, 21, 30], '-W')
        wait = P.give('task.signalwait', [2, 6, 13, 19, 25], '-S' if cluster else rng.choice(['-S', '--signalwait']))
        lines = [b.line(b.token(dur=250.0, exit=0, ignore=[2, 15]), 0)]
        b.meta.update(limit=limit, wait=wait)
    else:
        lines = [b.line(b.token(dur=0.2, exit=0), 0)]
        for k in range(1, 8):
            b.sc['files'][f'wd{k}/x'] = ''
        cwd = P.give('task.cwd', [f'%S%/wd{k}' for k in range(1, 8)]) if rng.random() < 0.8 else None
        want = {}
        b.sc['watch_env'] = ['FOO', 'A_PATH', 'VERSION', 'EMPTY', 'N']
        for name in ('FOO', 'A_PATH', 'VERSION', 'EMPTY', 'N'):
            if rng.random() < 0.6:
                values = {'FOO': ['one', 'two words', "it's", '$X', 'é', 'x=y'], 'A_PATH': [f'/p{k}:/q' for k in range(6)],
                          'VERSION': ['1.10', '1.20', '2.0', '03', '1e5'], 'EMPTY': ['a', 'b', 'c', 'd', 'e'],
                          'N': [1, 2, 3, 4, 5]}[name]
                got = P.give(f'export.{name.lower()}', values, show=False)
                P.known.pop(f'export.{name.lower()}', None)
                if got is not None:
                    want[name] = str(got)
        b.meta.update(cwd=cwd, want=want)
    if cluster:
        b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-p', PORT, '-w', '1', *P.flags])
    else:
        b.proc('server', ['hs', 'server', b.file('tasks.txt', lines), '-k', KEY, '-p', PORT])
        b.proc('client', ['hs', 'client', '-k', KEY, '-p', PORT, '-w', '1', *P.flags], upon=['server', 'listen', 1], delay=0.5)


def judge_task(run, meta, lag):
    if not run.ledger:
        return run.fail('setting', f'nothing was executed: {run.procs["server"].stderr.text()[-300:]!r}')
    run.nontrivial = True
    ended(run, [n for n in ('server', 'client') if n in run.procs])
    r = run.ledger[0]
    if meta['focus'] == 'limit':
        limit, wait = meta['limit'], meta['wait']
        got = [((t - r['start']) / NS, s) for t, s in r['signals']]
        want = [] if limit is None else [(limit, 2), (limit + wait, 15), (limit + 2 * wait, 9)]
        if [s for t, s in got] != [s for t, s in want] or any(not y - 0.1 <= x <= y + 4 + lag for (x, _), (y, _) in zip(got, want)):
            run.fail('setting', f'task.timeout is {limit} and task.signalwait {wait}: signals were sent at {got}')
        return
    cwd = meta['cwd'].replace('%S%', run.world.scratch) if meta['cwd'] else None
    if cwd and os.path.realpath(r['cwd'] or '') != os.path.realpath(cwd):
        run.fail('setting', f"task.cwd is {meta['cwd']!r}: the task was started in {r['cwd']!r}")
    for name, value in meta['want'].items():
        if r['env'].get(name) != value:
            run.fail('setting', f'export.{name.lower()} is {value!r}: the task has {r["env"].get(name)!r}')


def gen_submit(b, rng, P):
    focus = rng.choice(['size', 'wait', 'server', 'db'])
    b.meta['focus'] = focus
    if focus == 'wait':
        v = P.give('submit.bundlewait', [3, 7, 11, 15, 20], '-w', variant=True)
        P.give('submit.bundlesize', [90, 91, 92, 93, 94], '-b', must=True)
        decoys(P, 'client.bundlewait', 'server.bundlewait')
        lines = b.tasks(60, weird=0)
        b.proc('server', ['hs', 'submit', '-', *P.flags], stdin=[[1.0 * k, x + '\n'] for k, x in enumerate(lines)] + [[70, '']])
    elif focus == 'db':
        del b.sc['env']['HYPERSHELL_DATABASE_FILE']
        v = P.give('database.file', [f'%S%/db{k}.db' for k in range(1, 8)], variant=True)
        lines = b.tasks(5, weird=0)
        b.proc('server', ['hs', 'submit', b.file('tasks.txt', lines)])
    else:
        v = P.give('submit.bundlesize' if focus == 'size' else 'server.bundlesize', [2, 3, 4, 5, 7, 9], '-b', variant=True)
        decoys(P, 'client.bundlesize', 'server.bundlesize' if focus == 'size' else 'submit.bundlesize')
        n = 3 * v + rng.randint(1, v)
        lines = b.tasks(n, weird=0, dur=(0, 0.1), fail=0)
        src = b.file('tasks.txt', lines)
        if focus == 'size':
            b.proc('server', ['hs', 'submit', src, '-w', '100', *P.flags])
        else:
            b.proc('server', ['hs', 'server', src, '-w', '100', '-k', KEY, '-p', PORT, *P.flags])
            b.client(w=1)
    b.meta.update(value=v, n=len(lines))


def judge_submit(run, meta, lag):
    sizes, times = [], []
    for seq, t, kind, proc, d in run.events:
        if kind == 'db':
            k = sum(1 for (table, rid), old, new in d['changes'] if table == 'task' and old is None)
            if k:
                sizes.append(k)
                times.append(t)
    if sum(sizes) != meta['n']:
        return run.fail('setting', f"{sum(sizes)} of {meta['n']} tasks were stored: {run.procs['server'].stderr.text()[-300:]!r}")
    run.nontrivial = True
    ended(run, ['server'])
    v = meta['value']
    if meta['focus'] == 'db':
        used = {d['base'] for seq, t, kind, proc, d in run.events if kind == 'db'}
        if used != {v.rsplit('/')[-1]}:
            run.fail('setting', f'database.file is {v!r}: tasks were stored in {sorted(used)}')
    elif meta['focus'] == 'wait':
        gaps = [(y - x) / NS for x, y in zip(times, times[1:-1])]
        if not gaps or min(gaps) < v - 0.1 or max(gaps) > v + 2 + lag:
            run.fail('setting', f'submit.bundlewait is {v}: tasks were stored after {[round(g, 1) for g in gaps]}s')
    elif sizes != [v] * (meta['n'] // v) + [meta['n'] % v] * bool(meta['n'] % v):
        run.fail('setting', f"{'submit' if meta['focus'] == 'size' else 'server'}.bundlesize is {v}: {meta['n']} tasks were stored "
                 f'in groups of {sizes}')


def gen_cluster(b, rng, P):
    port = P.give('server.port', rng.sample(range(1025, 60000), 6), '-p', variant=True)
    attempts = P.give('server.attempts', [1, 2, 3, 4, 5], '-r', cli=lambda v: v - 1)
    heart = P.give('client.heartrate', [2, 4, 7, 15, 23])
    if rng.random() < 0.5:
        P.give('server.auth', ['sesame', '007', '1e5', 'true', 'x y'])
    n = rng.randint(1, 3)
    lines = [b.line(b.token(dur=20.0, exit=3), 0) for _ in range(n)]
    b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-N', '3', '-w', '1', *P.flags])
    b.meta.update(port=port, attempts=attempts, n=n, heart=heart)


def judge_cluster(run, meta, lag):
    listen = [d for seq, t, kind, proc, d in run.events if kind == 'listen']
    if not listen or listen[0]['port'] != meta['port']:
        return run.fail('setting', f"server.port is {meta['port']}, the cluster listens on {listen and listen[0]['port']}")
    run.nontrivial = True
    ended(run, ['server'])
    if len(run.ledger) != meta['n'] * meta['attempts']:
        run.fail('setting', f"server.attempts is {meta['attempts']}: {meta['n']} tasks that always fail were executed "
                 f"{len(run.ledger)} times by a cluster")
    beats = [t for seq, t, kind, proc, d in run.events if kind == 'rpc' and d['q'] == 'heartbeat' and d['m'] == 'put']
    gaps = [(y - x) / NS for x, y in zip(beats[1:], beats[2:-1])]
    if gaps and (min(gaps) < meta['heart'] - 0.1 or max(gaps) > meta['heart'] + 1 + lag):
        run.fail('setting', f"client.heartrate is {meta['heart']}: signs of life were sent after {[round(g, 1) for g in gaps]}s")


def gen_ssh(b, rng, P):
    lists = [['n1'], ['n2', 'n3'], ['n4', 'n5', 'n6'], ['n7'], ['n8', 'n9'], 'n[01-02]']
    b.sc['hosts'] = [f'n{k}' for k in range(1, 10)] + ['n01', 'n02', 'h0']
    if rng.random() < 0.6:
        hosts = P.give('ssh.nodelist.group', lists, env=False)
        if P.mode != 'none':
            P.give('ssh.nodelist.other', lists, env=False)
        how = ['--ssh-group', 'group']
    else:
        hosts = P.give('ssh.nodelist', lists, env=False)
        how = ['--ssh']
    P.known.clear()
    args = P.give('ssh.args', ['-i ~/.ssh/key', '-p 2222', "-o 'User x'", '-v', '-q'], '--ssh-args', variant=True)
    P.flags = [f'{P.flags[0]}={P.flags[1]}'] if P.flags else []
    P.known.clear()
    lines = b.tasks(4, dur=(0, 1), weird=0, fail=0)
    b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-w', '1', '-p', PORT, *how, *P.flags])
    for k in [f'launched{k}' for k in range(1, 4)]:
        b.sc.setdefault('optional_procs', []).append(k)
    b.sc['horizon'] = 150
    b.meta.update(hosts=['n01', 'n02'] if hosts == 'n[01-02]' else hosts, args=args)


def judge_ssh(run, meta, lag):
    launches = [d for seq, t, kind, proc, d in run.events if kind == 'launch' and proc == 'server']
    if meta['hosts'] is None:
        run.nontrivial = False
        return
    if sorted(d['host'] for d in launches) != sorted(meta['hosts']):
        return run.fail('setting', f"the list of hosts is {meta['hosts']}: clients were started on {[d['host'] for d in launches]}: "
                        f'{run.procs["server"].stderr.text()[-300:]!r}')
    run.nontrivial = True
    want = shlex.split(meta['args'] or '')
    for d in launches:
        if d['outer'][1:1 + len(want)] != want or d['outer'][1 + len(want)] != d['host']:
            return run.fail('setting', f"ssh.args is {meta['args']!r}: the command was {d['outer'][:6]}")
    ended(run, ['server'])


def gen_autoscale(b, rng, P):
    init = P.give('autoscale.size.init', [0, 1, 2, 3, 4], '-I')
    low = P.give('autoscale.size.min', [0, 1, 2, 3, 4], '-X')
    P.give('autoscale.size.max', [6, 7, 8, 9, 10], '-Y')
    period = P.give('autoscale.period', [6, 11, 17, 23, 29], '-P')
    how = ['-A']
    if P.mode == 'none' or rng.random() < 0.3:
        how = ['-A', 'fixed']
    else:
        P.give('autoscale.policy', ['fixed', 'fixed', 'Fixed', 'FIXED', 'fixed'])
    b.proc('server', ['hs', 'cluster', '-', '-p', PORT, '-w', '1', *P.flags, *how], stdin=[])
    b.sc['horizon'] = 140
    b.meta.update(init=init, low=low, period=period)


def judge_autoscale(run, meta, lag):
    p = run.procs['server']
    if p.dead:
        return run.fail('setting', f'the cluster ended with status {p.exit_code}: {p.stderr.text()[-300:]!r}')
    times = [t / NS for seq, t, kind, proc, d in run.events if kind == 'launch' and proc == 'server']
    init, low, period = meta['init'], min(meta['low'], 10), meta['period']
    first = sum(1 for t in times if t <= 4 + lag)
    if first != init:
        return run.fail('setting', f'autoscale.size.init is {init}: {first} clients were launched at first ({times})')
    more = times[init:]
    run.nontrivial = True
    possible = int((run.sim.now / NS - 4 - lag) / (period + lag + 1))
    if len(more) > max(0, low - init) or len(more) < min(max(0, low - init), possible):
        return run.fail('setting', f'autoscale.size.min is {low} and .init {init}, .period {period}: launches at {times}')
    gaps = [y - x for x, y in zip(more, more[1:])]
    if gaps and (min(gaps) < period - 0.1 or max(gaps) > period + 2 + lag):
        run.fail('setting', f'autoscale.period is {period}: clients were added after {[round(g, 1) for g in gaps]}s')


def gen_log(b, rng, P):
    level = P.give('logging.level', ['debug', 'INFO', 'Warning', 'error', 'CRITICAL', 'trace', 'warning'], variant=True)
    style = 'default'
    if rng.random() < 0.5:
        style = P.give('logging.style', ['default', 'detailed', 'system', 'detailed-compact', 'Detailed']) or 'default'
    lines = [b.line(b.token(dur=0.5, exit=3), 0) for _ in range(3)]
    b.proc('server', ['hs', 'server', b.file('tasks.txt', lines), '-k', KEY, '-p', PORT])
    b.proc('client', ['hs', 'client', '-k', KEY, '-p', PORT, '-w', '1'], upon=['server', 'listen', 1], delay=0.5)
    b.meta.update(level=level, style=style.lower())


def judge_log(run, meta, lag):
    run.nontrivial = True
    ended(run, ['server', 'client'])
    low = LEVELS.index(meta['level'].upper())
    seen = set()
    for name in ('server', 'client'):
        for line in run.procs[name].stderr.text().splitlines():
            line = re.sub(r'\x1b\[[0-9;]*m', '', line)
            m = re.match(r'^.*?\b(TRACE|DEVEL|DEBUG|INFO|WARNING|ERROR|CRITICAL)\b', line)
            if not m:
                continue
            if not re.match(STYLES[meta['style']].replace('LEVEL', m[1]), line):
                return run.fail('setting', f"logging.style is {meta['style']}: {line!r}")
            seen.add(m[1])
    below = [x for x in LEVELS[:low] if x in seen]
    if below:
        run.fail('setting', f"logging.level is {meta['level']}: there are messages of level {below}")
    missing = [x for x in ('DEBUG', 'INFO', 'WARNING') if LEVELS.index(x) >= low and x not in seen]
    if missing:
        run.fail('setting', f"logging.level is {meta['level']}: there are no messages of level {missing}")


def gen_evict(b, rng, P):
    evict = P.give('server.evict', [12, 25, 40, 60, 80])
    P.give('client.heartrate', [1, 2, 3, 4, 5])
    cluster = False
    lines = [b.line(b.token(dur=8.0, exit=0), 0) for _ in range(3)]
    b.proc('server', ['hs', 'server', '--forever', '-k', KEY, '-p', PORT])
    b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines)])
    b.proc('client', ['hs', 'client', '-k', KEY, '-p', PORT], upon=['server', 'listen', 1], delay=0.5)
    b.fault(do='sigkill', proc='client', at=30)
    b.sc['horizon'] = 140
    b.meta['evict'] = evict


def judge_evict(run, meta, lag):
    h = history(run)
    rows = list(h.clients.values()) if isinstance(h.clients, dict) else list(h.clients)
    if len(rows) != 1:
        return run.fail('setting', f'{len(rows)} clients are registered')
    run.nontrivial = True
    beats = [t for seq, t, kind, proc, d in run.events if kind == 'q-get' and d['q'] == 'heartbeat' and d['obj']]
    out = db_time(rows[0]['disconnected_at'])
    evict = meta['evict']
    if out is None:
        if beats[-1] + (evict + 15 + lag) * NS < run.sim.now:
            run.fail('setting', f'server.evict is {evict}: the client that was last heard of at {as_s(beats[-1])} was not evicted')
    elif not evict - 1 <= (out - beats[-1]) / NS <= evict + 15 + lag:
        run.fail('setting', f'server.evict is {evict}: the client was evicted {(out - beats[-1]) / NS:.1f}s after it was last heard of')


GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_')}
JUDGE = {k[6:]: v for k, v in list(globals().items()) if k.startswith('judge_')}


def judge(run):
    meta = run.scenario['meta']
    tb = tracebacks(run)
    if tb:
        run.fail('traceback', f'{tb[0][0]}: {tb[0][1]}')
        return
    for name, p in run.procs.items():
        if p.dead and p.killed_by == 'crash':
            run.fail('traceback', f'{name} failed: {p.stderr.text()[-400:]!r}')
            return
    JUDGE[meta['kind']](run, meta, slack(run.scenario))
    for k, path, text, place in meta.get('shown', ()):
        for name, want in ((f'get{k}', text), (f'which{k}', place)):
            p = run.procs.get(name)
            if p is None or not p.dead or p.exit_code != 0:
                run.fail('shown', f'{name} did not end with success: {p and p.stderr.text()[-300:]!r}')
            elif p.stdout.text().strip() != want.replace('%S%', run.world.scratch):
                run.fail('shown', f"`{' '.join(p.argv)}` printed {p.stdout.text().strip()!r}, it is {want!r}")
