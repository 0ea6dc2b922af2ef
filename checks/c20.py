"""C20: cluster commands start every requested client with the given settings."""

import re
from collections import Counter

from . import c12, c13
from .common import *

RULE = ('a run counts when every expected client was there and at least one task was executed; distinct means a different '
        'order in which threads were scheduled')
ASSUMPTIONS = ['the simulated `ssh` joins its words and has the command line read by a shell, as the real one does; the '
               'launchers start their clients on the host of the server', 'results are taken by the server without delay '
               'while the use of the executors is judged']
QUICK = {'runs': 1200, 'seconds': 65}
THOROUGH = {'runs': 50000, 'seconds': 1200}

TEMPLATES = ['{}', '{}', '{}', 'nice {}', "echo 'a  b' {}", 'x "$HOME" {}; done', '{} > out.$TASK_ID', 'a\\b {}', "it's {}",
             '{}  two  spaces', '*?[a] {} ~', '`date` {}', '{} && true || false', 'é {}', '({}) 2>&1 | tee -a log', "'{}'",
             '"{}"', '-n {}', "sh -c '{}' # \"x\"", '$(hostname) {}', '!{}', "''{}", '%s {} \\n', '{} &', "{}'", '{}\\', ' {}', '{}  ']
VALUES = ['x', '007', 'True', 'a b', "it's", '/usr/bin:/bin', 'é', '{}', 'a  b', '"q"', '$HOME', 'x;y', '`ls`', 'a\\b', '*', '',
          '#x', "'", '&', '~', 'a=b', '(x)', '!', '-n']
TOKEN = re.compile('@(t[0-9]+)@')
NAMES = ['FOO', 'FOO_BAR', 'A', 'X9']


def host_list(rng):
    """(pattern, hosts it stands for)"""
    parts, hosts = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        stem = rng.choice(['n', 'node-', 'a.b', 'x9-']) + rng.choice('abcdefgh')
        tail = rng.choice(['', '', '.xyz', '-ib0'])
        if r < 0.35:
            parts.append(stem + tail)
            hosts.append(stem + tail)
            continue
        groups, names = [], []
        for _ in range(rng.choice([1, 1, 2])):
            width = rng.choice([1, 1, 2, 3])
            lo = rng.choice([0, 1, 2, 7, 8, 9, 10, 98, 99]) if width == 1 else rng.choice([0, 1, 8])
            form = (lambda v: str(v)) if width == 1 else (lambda v: str(v).zfill(width))
            if rng.random() < 0.3:
                groups.append(form(lo))
                names.append(form(lo))
            else:
                hi = lo + rng.choice([0, 1, 1, 2])
                if width == 1 and rng.random() < 0.15:
                    lo = 0
                if lo == 0 and width == 1 and rng.random() < 0.4:
                    hi = 10                            # more digits than the (padded?) first
                groups.append(f'{form(lo)}-{form(hi)}')
                names += [form(v) for v in range(lo, hi + 1)]
        spec = f'[{",".join(groups)}]'
        if rng.random() < 0.12:
            parts.append(f'{stem}{spec}r[1-2]{tail}')
            hosts += [f'{stem}{v}r{k}{tail}' for v in names for k in '12']
        else:
            parts.append(f'{stem}{spec}{tail}')
            hosts += [f'{stem}{v}{tail}' for v in names]
    return ','.join(parts), hosts


def toml_list(values):
    return '[' + ', '.join(json.dumps(v) for v in values) + ']'


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    k = b.sc['knobs']
    k.update(db_max=min(k.get('db_max', 0.01), 0.05), db_tail_p=0)
    if k.get('nap_max', 0) > 1:
        k['nap_max'] = 1.0
    b.env(SERVER_QUEUESIZE=rng.choice([4, 64]), SERVER_EVICT=rng.choice([15, 30, 600]), CLIENT_HEARTRATE=2)
    mode = rng.choice(['local', 'local', 'ssh', 'ssh', 'ssh', 'ssh', 'launcher', 'mpi'])
    argv, tail, config = ['hs', 'cluster'], [], ''
    m = {'mode': mode, 'hosts': [], 'outer': None, 'down': []}
    env = {}
    if mode == 'ssh':
        while True:
            pattern, hosts = host_list(rng)
            if len(hosts) <= 5 or len(hosts) <= 12 and '0-10' in pattern:
                break
        r = rng.random()
        if r < 0.55:
            tail.append(f'--ssh={pattern}')
        elif r < 0.7:
            config = f'[ssh]\nnodelist = {rng.choice([json.dumps(pattern), toml_list(hosts)])}\n'
            tail.append('--ssh')
        else:
            entry = rng.choice([json.dumps(pattern), toml_list(hosts)])
            config = f'[ssh.nodelist]\nother = ["elsewhere"]\nmine = {entry}\n'
            tail += rng.choice([['--ssh', '--ssh-group', 'mine'], ['--ssh', '--ssh-group=mine'], ['--ssh-group=mine']])
        m['hosts'] = list(hosts)
        b.sc['hosts'] = sorted(set(hosts))
        if len(set(hosts)) > 1 and rng.random() < 0.2:
            m['down'] = [rng.choice(sorted(set(hosts)))]
            b.sc['down_hosts'] = list(m['down'])
        args = rng.choice([None, None, '-p 2222', "-i '~/.ssh/a key' -o BatchMode=yes", '-v -l me'])
        if args is not None:
            m['outer'] = {'-p 2222': ['-p', '2222'], '-v -l me': ['-v', '-l', 'me']}.get(
                args, ['-i', '~/.ssh/a key', '-o', 'BatchMode=yes'])
            if rng.random() < 0.3:
                config = f'[ssh]\nargs = {json.dumps(args)}\n' + config.replace('[ssh]\n', '')
            else:
                tail.append(f'--ssh-args={args}')
    elif mode == 'launcher':
        launcher, n = rng.choice([('srun', 1), ('srun -n 3 --label', 3), ('mpiexec -n 2', 2), ('srun --mpi=pmi2 -n 2', 2)])
        tail.append(f'--launcher={launcher}')
        m['hosts'] = ['h0'] * n
        m['outer'] = launcher.split()
    elif mode == 'mpi':
        tail.append('--mpi')
        m['hosts'] = ['h0']
        m['outer'] = ['mpirun']
    alive = [h for h in m['hosts'] if h not in m['down']] if mode != 'local' else ['h0']
    count = len(alive)
    # settings
    N = rng.choice([1, 1, 2, 3, 4])
    size = rng.choice([1, 1, 2, 3, 5])
    wait = rng.choice([1, 1, 2, 4])
    retries = rng.choice([0, 0, 1, 2])
    template = rng.choice(TEMPLATES)
    delay = rng.choice([None, None, 0, 1.5, 4, -3])
    limit = rng.choice([None, None, None, 2, 5])
    sigwait = rng.choice([None, 1, 3])
    forever = mode != 'local' and rng.random() < 0.12
    timeout = rng.choice([5, 9]) if forever else rng.choice([None, None, None, 120])
    r = rng.random()
    nodb = r < 0.15 and not forever
    noconfirm = rng.random() < (0.6 if nodb else 0.25)
    if nodb:
        retries = 0
    capture = rng.random() < 0.35
    n = rng.choice([count, 3 * count, 6 * count])
    durs = rng.choice([(0, 0.5), (0.5, 3), (1, 4), (0, 8)])
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=durs, weird=rng.choice([0, 0.5]))
    for name, spec in b.sc['specs'].items():
        if limit is not None and rng.random() < 0.6:
            spec['ignore'] = rng.choice([[2], [2, 15]])
            spec['dur'] = round(rng.choice([spec['dur'], limit + 4, limit + 14]), 3)
        spec['out'] = [[0.5, rng.choice(['out', 'err']), f'{name}.{j}\n'] for j in range(rng.randint(0, 2))]
    tail += ['-N', str(N), '-b', str(size), '-w', str(wait), '-r', str(retries)]
    if template != '{}' or rng.random() < 0.3:
        tail += [f'-t{template}'] if template.startswith('-') else ['-t', template]
    if delay is not None:
        tail += ['-d', str(delay)]
    if limit is not None:
        tail += ['-W', str(limit)]
    if sigwait is not None:
        tail += ['-S', str(sigwait)]
    if timeout is not None:
        tail += ['-T', str(timeout)]
    if nodb:
        tail += ['--no-db']
    if noconfirm:
        tail += ['--no-confirm']
    if capture:
        tail += ['--capture']
    if rng.random() < 0.3:
        tail += ['--eager']
    if rng.random() < 0.3:
        tail += ['-f', '%S%/failed.txt']
        m['failures'] = True
    exe = None
    if mode == 'ssh' and rng.random() < 0.25:
        exe = '/opt/hs/bin/hs'
        b.sc['exe_paths'] = [exe]
        tail += ['--remote-exe', exe]
    m['exe'] = exe or 'hs'
    exports, sent = {}, mode != 'ssh'
    for _ in range(rng.choice([0, 0, 1, 3])):
        v, x = rng.choice(NAMES), rng.choice(VALUES)
        env[f'HYPERSHELL_EXPORT_{v}'] = exports[v] = x
    if mode == 'ssh' and rng.random() < 0.5:
        tail += [rng.choice(['-E', '--env'])]
        sent = True
    port = PORT
    if rng.random() < 0.4:
        port = rng.choice(['50002', '50001', '1234'])
        tail += ['-p', port]
    rng_order = rng.random()
    kw = {'env': env}
    source = rng.choice(['file', 'file', 'stdin', 'restart']) if not (nodb or forever) else 'file'
    if source == 'restart':
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 4, 50]))])
        tail.append('--restart')
        kw.update(after='submit', delay=1)
    elif source == 'stdin':
        kw['stdin'] = b.feed(lines, gap=(0, 1.0), burst=0.7)
    else:
        f = b.file('tasks.txt', lines)
        if rng_order < 0.5:
            argv.append(f)
        else:
            tail.append(f)
            if tail[0] == '--ssh':            # takes the next word if there is one
                tail.insert(1, '--eager') if tail[1] == f else None
    if forever:
        tail.append('--forever')
        b.sc['horizon'] = 120
    b.meta['servers'].append('server')
    b.proc('server', argv + tail, **kw)
    if config:
        b.sc['files']['site-h0/config.toml'] = config
    other = False
    if rng.random() < 0.2 and not forever:
        # another cluster on the same host: another port, another database
        other = True
        more = b.tasks(rng.choice([1, 4]), fail=0, dur=(0, 2))
        b.proc('other', ['hs', 'cluster', b.file('other.txt', more), '-p', '50007', '-N', '2',
                         *rng.choice([[], [], ['--mpi']])],
               env={'HYPERSHELL_DATABASE_FILE': '%S%/other.db'}, at=round(rng.uniform(0, 6), 1))
        m['other'] = more
    if mode != 'local' and count > 1 and not forever and not noconfirm and not nodb and rng.random() < 0.15:
        b.env(SERVER_EVICT=15)
        m['killed'] = True
        b.fault(do='sigkill', proc=f'launched{rng.randint(1, count)}', at=round(rng.uniform(4, 15), 1))
    b.sc['watch_env'] = sorted(set(NAMES))
    return b.done(N=N, size=size, wait=wait, attempts=retries + 1, template=template, delay=delay, limit=limit, sigwait=sigwait,
                  forever=forever, timeout=timeout, nodb=nodb, noconfirm=noconfirm, capture=capture, sent=sent, exports=exports,
                  port=port, source=source, lines=lines, count=count, **m)


def judge(run):
    meta = run.scenario['meta']
    mode, N = meta['mode'], meta['N']
    p = run.procs.get('server')
    if p is None or p.started is None:
        return
    lag = int(slack(run.scenario) * NS)
    end = p.exit_time if p.dead else run.sim.now
    if meta.get('other') and run.procs['other'].started is not None:
        ended(run, ['other'])
        mine = {'other'} | {d['name'] for s, t, kind, proc, d in run.events if kind == 'launch' and proc == 'other'}
        count = {}
        for r in run.ledger:
            if r['client'] in mine:
                count[r['token']] = count.get(r['token'], 0) + 1
        for line in meta['other']:
            tok = TOKEN.search(line).group(1)
            if count.get(tok, 0) != 1:
                run.fail('executed', f'{line!r} of the other cluster was executed {count.get(tok, 0)} times by it')
                return
        run.ledger = [r for r in run.ledger if r['client'] not in mine]
    h = None if meta['nodb'] else history(run)
    launches, failed = [], []
    listen = None
    first, confirmed, taken = {}, set(), {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'launch' and proc == 'server':
            launches.append((t, data))
        elif kind == 'launch-failed' and proc == 'server':
            failed.append((t, data))
        elif kind == 'listen' and proc.startswith('server') and listen is None:
            listen = t
        elif kind == 'connected':
            first.setdefault(proc, t)
        elif kind == 'rpc' and data.get('q') == 'confirmed' and data.get('m') == 'put':
            confirmed.add(proc)
        elif kind == 'rpc-ok' and data.get('q') == 'scheduled' and data.get('m') == 'get' and carried_any(data.get('obj')):
            taken.setdefault(proc, []).append(t)
    # exactly the requested clients
    got = sorted(d['host'] for t, d in launches)
    want = sorted(x for x in meta['hosts'] if x not in meta['down'])
    if listen is None or end < p.started + 2 * NS + 2 * lag:
        if not p.dead:
            return
    if got != want and end > p.started + 4 * NS + 2 * lag or set(got) - set(want):
        run.fail('clients', f'{mode}: clients were started on {got}, requested on {want}; failed: '
                 f'{[d["argv"] for t, d in failed][:1]}, status {p.exit_code}: {p.stderr.text()[-300:]!r}')
        return
    names = ['server'] if mode == 'local' else [d['name'] for t, d in launches]
    for t, d in launches:
        if t > p.started + 2 * NS + 2 * lag:
            run.fail('clients', f'{d["name"]} was started {(t - p.started) / NS:.1f}s after the cluster', t)
            return
        if meta['outer'] is not None:
            words = d['outer'][1:] if mode == 'ssh' else d['outer']
            if words[:len(meta['outer'])] != meta['outer']:
                run.fail('launcher', f'client was launched by {d["outer"][:8]}, requested {meta["outer"]}', t)
                return
        if d['argv'][0] != meta['exe']:
            run.fail('launcher', f'client was launched as {d["argv"][0]}, requested {meta["exe"]}', t)
            return
    begin = dict((d['name'], t) for t, d in launches)
    if mode == 'local':
        begin = {'server': p.started}
    delay = meta['delay'] or 0
    for name in names:
        q = run.procs[name]
        if q.dead and q.killed_by == 'SIGKILL':
            continue
        t0 = begin[name]
        if mode == 'local':
            c = min((r['start'] for r in run.ledger if r['client'] == 'server'), default=None)
        else:
            c = first.get(name)
        if delay > 0 and c is not None and c < t0 + int(delay * NS) - NS // 100:
            run.fail('delay', f'{name} connected {(c - t0) / NS:.2f}s after its start, the delay is {delay}s', c)
            return
        if c is None and mode != 'local' and end > t0 + int(abs(delay) * NS) + 2 * lag:
            run.fail('unconnected', f'{name} on {q.host} did not connect within {(end - t0) / NS:.1f}s: status {q.exit_code}, '
                     f'{q.stderr.text()[-300:]!r}', t0)
            return
        if c is not None and mode != 'local' and c > t0 + int(abs(delay) * NS) + 2 * lag:
            run.fail('unconnected', f'{name} connected only {(c - t0) / NS:.2f}s after its start, the delay is {delay}s', c)
            return
        if confirmed & {name} and meta['noconfirm']:
            run.fail('confirmation', f'{name} sent confirmations, they are disabled')
            return
        if not meta['noconfirm'] and taken.get(name) and name not in confirmed and mode != 'local':
            if (q.exit_time or run.sim.now) > taken[name][0] + lag:
                run.fail('confirmation', f'{name} received tasks and confirmed none')
                return
    # settings
    for seq, t, kind, proc, data in run.events:
        if kind == 'q-put' and data['q'] in ('scheduled', 'completed') and isinstance(data.get('obj'), list) \
                and proc in ('server', 'server-manager', *names) and len(data['obj']) > meta['size']:
            run.fail('bundle', f'{proc} put a bundle of {len(data["obj"])} on {data["q"]}, the bundle size is {meta["size"]}', t)
            return
    if not c12.escalation(run, meta['limit'], 10 if meta['sigwait'] is None else meta['sigwait'], {}, only=set(names)):
        return
    info = {'N': N, 'to': 'capture' if meta['capture'] else 'streams', 'export': meta['exports'] if meta['sent'] else {}}
    for name in names:
        if h is not None:
            if not c13.parallel(run, name, info):
                return
        for r in run.ledger:
            if r['client'] != name or r['token'] is None:
                continue
            for key, value in info['export'].items():
                if r['env'].get(key) != value:
                    run.fail('exported', f'{r["command"]!r}: {key} is {r["env"].get(key)!r}, exported as {value!r}', r['start'])
                    return
            for key in set(meta['exports']) - set(info['export']):
                if key in r['env']:
                    run.fail('exported', f'{r["command"]!r}: {key} is {r["env"].get(key)!r}, the environment is not to be sent')
                    return
            args = r['env'].get('TASK_ARGS')
            if args is None or r['command'] != expected_command(args, meta['template']):
                run.fail('template', f'{args!r} was executed as {r["command"]!r} with template {meta["template"]!r}', r['start'])
                return
            path = os.path.relpath(r['env'].get('TASK_OUTPATH', '/'), run.world.scratch)
            if (run.read_file(path) is not None) != meta['capture']:
                run.fail('capture', f'{r["command"]!r}: there is {"no" if meta["capture"] else "a"} file of its output, capture '
                         f'is {meta["capture"]}', r['start'])
                return
        if h is not None and meta['capture'] and not meta.get('killed') and not c13.outputs(run, name, info):
            return
        if not overlap(run, name, N):
            return
    if meta['forever']:
        for name in names:
            q = run.procs[name]
            mine = taken.get(name, [])
            last = max(mine, default=first.get(name))
            if last is None:
                continue
            idle = max([last + meta['timeout'] * NS] + [r['end'] or 0 for r in run.ledger if r['client'] == name])
            if q.dead and q.exit_time < last + meta['timeout'] * NS - lag:
                run.fail('timeout', f'{name} left {(q.exit_time - last) / NS:.1f}s after its last tasks; the timeout is '
                         f'{meta["timeout"]}s', q.exit_time)
                return
            if (q.exit_time or run.sim.now) > idle + (meta['wait'] + 2) * NS + 3 * lag:
                run.fail('timeout', f'{name} was still there {((q.exit_time or run.sim.now) - idle) / NS:.1f}s after it became '
                         f'due to leave; the timeout is {meta["timeout"]}s')
                return
        if p.dead:
            run.fail('ended', f'the cluster ended with status {p.exit_code} at {as_s(p.exit_time)}: {p.stderr.text()[-300:]!r}')
            return
    elif meta.get('killed') and not p.dead and hang_kind(run) == 'hang-unconfirmed':
        return                  # C15
    else:
        late = [n for n in names if mode != 'local' and run.procs[n].dead and run.procs[n].exit_code and
                refused_late(run, run.procs[n])]
        ended(run, ['server', *[n for n in names if n not in late and run.procs[n].killed_by != 'SIGKILL']])
    if meta.get('failures') and p.dead and p.exit_code == 0 and not meta.get('killed'):
        want = Counter(r['env']['TASK_ARGS'] for r in run.ledger if r['client'] in names and r['status'] not in (0, None))
        got = Counter((run.read_file('failed.txt') or '').split('\n')[:-1])
        if want != got:
            run.fail('failures', f'failed tasks: {dict(want)}, listed: {dict(got)}')
            return
    if h is not None:
        if not meta['forever']:
            all_complete(run)
            links(run, meta['attempts'])
        if not meta.get('killed'):
            executed_once(run)
        records_true(run, template=meta['template'])
        data_unchanged(run)
    elif p.dead and p.exit_code == 0:
        count = {}
        for r in run.ledger:
            if r['client'] in names:
                count[r['token']] = count.get(r['token'], 0) + 1
        for line in meta['lines']:
            tok = TOKEN.search(line).group(1)
            if count.get(tok, 0) != 1:
                run.fail('executed', f'{line!r} was executed {count.get(tok, 0)} times')
                return
    if set(names) <= set(run.procs) and any(r['client'] in names for r in run.ledger):
        run.nontrivial = True


def carried_any(obj):
    return isinstance(obj, list) and len(obj) > 0


def overlap(run, name, N):
    marks = []
    for r in run.ledger:
        if r['client'] == name:
            marks.append((r['start'], 1))
            if r['end'] is not None:
                marks.append((r['end'], -1))
    running = 0
    for t, d in sorted(marks):
        running += d
        if running > N:
            run.fail('overlap', f'{name} ran {running} tasks at once, limit {N}', t)
            return False
    return True
