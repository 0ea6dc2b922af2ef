"""C08: restarting after a server crash neither loses nor repeats finished work."""

from .common import *

RULE = ('a run counts when a server was killed with tasks in the database and a later one finished; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database and what it committed is durable',
               'the helper process of a server dies with it (crash of the node, the service or its process group)',
               'at least one task had been stored before the last restart']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1200)
    many = rng.random() < 0.12          # more in flight than what the server handles at a time
    n = rng.randint(150, 320) if many else rng.randint(1, 20)
    retries = rng.choice([0, 0, 1, 3]) if not many else 0
    lines = b.tasks(n, fail=rng.choice([0, 0.3]) if not many else 0,
                    dur=rng.choice([(0, 0.3), (0, 3.0), (1, 8)]) if not many else (0, 0.1), seq=rng.choice([0, 0.4]))
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=rng.choice([10, 60]), CLIENT_HEARTRATE=2)
    cluster = rng.random() < 0.2
    args = ['-b', str(rng.choice([1, 1, 2, 3, 8]) if not many else rng.choice([105, 160, 400])), '-r', str(retries), *(['--eager'] if rng.random() < 0.2 else [])]
    nc = ['--no-confirm'] if rng.random() < 0.1 else []
    rounds = rng.choice([1, 1, 1, 2, 3])
    wait = ['-w', str(rng.choice([1, 2]))]

    def start(name, *a, **kw):
        if cluster:
            b.proc(name, ['hs', 'cluster', *a, *args, *nc, '-p', PORT, '-N', str(rng.choice([1, 2, 4]))], **kw)
        else:
            b.server(*a, *args, *nc, name=name, **kw)
            for k in range(rng.choice([1, 1, 2, 3])):
                b.client(*nc, N=rng.choice([1, 2, 4]) if not many else 8, b=rng.choice([1, 2, 4]) if not many else 40,
                         w=rng.choice([1, 2]), server=name)
    mode = rng.choice(['file', 'stdin', 'restart', 'forever'])
    if mode == 'file':
        start('server', b.file('tasks.txt', lines), *wait)
    elif mode == 'stdin':
        start('server', '-', *wait, stdin=b.feed(lines, gap=(0, 2.0), burst=0.7))
    else:
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 4, 50]))])
        start('server', '--restart' if mode == 'restart' else '--forever', after='submit', delay=1)
    names = ['server']
    for k in range(rounds):
        name = f'server{k + 2}'
        prev = names[-1]
        if rng.random() < 0.7:
            point, most = rng.choice(SERVER_POINTS + [('db-commit', 80), ('db-commit-done', 80), ('db-execute', 200)])
            if cluster and rng.random() < 0.5:
                point, most = rng.choice(CLIENT_POINTS)
            when = {'on': [prev, point, rng.randint(1, most)]}
        else:
            when = {'at': round(rng.uniform(0.5, 40 * (k + 1)), 2)} if k == 0 else {
                'on': [prev, 'db-execute', rng.randint(1, 400)]}
        if rng.random() < 0.3:
            b.fault(do='crash-host', host='h0', **when)
        else:
            b.fault(do='kill', proc=prev, **when)
        if mode == 'forever' or rng.random() < 0.5:
            b.fault(do='kill', proc=prev, at=500 + 60 * k)
        start(name, '--restart', after=prev, delay=round(rng.choice([0.5, 3, 20]), 1))
        names.append(name)
    if mode == 'forever' and len(names) == 1:
        b.fault(do='signal', proc='server', sig='SIGUSR1', at=400)
    return b.done(mode=mode, attempts=retries + 1, lines=lines, names=names, cluster=cluster, retries=retries)


KEPT = ('args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'previous_id', 'tag', 'client_id', 'client_host',
        'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'duration', 'waited',
        'schedule_time', 'server_id', 'server_host')


def whole(row):
    """What is half recorded in a committed task row, if anything."""
    if (row['exit_status'] is None) != (row['completion_time'] is None):
        return 'completion'
    if (row['schedule_time'] is None) != (row['server_id'] is None):
        return 'scheduling'
    if (row['client_id'] is None) != (row['client_host'] is None):
        return 'confirmation'
    if row['completion_time'] is not None and (row['client_id'] is None or row['start_time'] is None):
        return 'completion'
    if not row['args'] or row['submit_time'] is None or row['submit_id'] is None or row['attempt'] is None:
        return 'submission'
    if (row['next_id'] is not None) != bool(row['retried']):
        return 'retry'
    return None


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    crashes_ = [(t, proc) for seq, t, kind, proc, data in run.events if kind == 'fault' and data.get('do') in ('kill', 'crash-host')]
    rows_at = {}
    crash_at = []
    for name in meta['names']:
        p = run.procs.get(name)
        if p is not None and p.dead and p.killed_by in ('crash', 'host crash'):
            crash_at.append(p.exit_time)
    for rid, lst in h.task_changes.items():
        done = None
        for seq, t, proc, old, new in lst:
            if new is None:
                run.fail('vanished', f'{describe(old)} disappeared', t)
                return
            half = whole(new)
            if half:
                run.fail('half-recorded', f'{describe(new)}: {half} is recorded in part: {brief(new)}', t)
                return
            if done is not None:
                diff = [f for f in KEPT if done[1][f] != new[f]]
                if diff:
                    run.fail('changed', f'{describe(new)} was complete at {as_s(done[0])}, then {diff} changed: '
                             f'{[(done[1][f], new[f]) for f in diff][:2]}', t)
                    return
            elif new['completion_time'] is not None:
                done = (t, new)
        if done is not None:
            for c in crash_at:
                if done[0] < c:
                    again = [r for r in h.execs.get(rid, ()) if r['start'] > c]
                    if again:
                        run.fail('repeated', f'{describe(done[1])} was complete at {as_s(done[0])}, the server died at '
                                 f'{as_s(c)}, and it was executed again at {as_s(again[0]["start"])}', again[0]['start'])
                        return
    last = next(run.procs[n] for n in reversed(meta['names']) if n in run.procs)
    if last.started is None or not h.rows:
        return
    run.nontrivial = bool(crash_at)
    if not last.dead:
        if hang_kind(run) == 'hang':
            open_ = [r for r in h.rows.values() if r['completion_time'] is None]
            run.fail('never-finished', f'{last.name} is still running at {as_s(run.sim.now)}; {len(open_)} tasks are not '
                     f'complete{": " + describe(open_[0]) if open_ else ""}; {tracebacks(run)[:2]}')
        return
    if last.killed_by in ('crash', 'host crash'):
        return
    if last.exit_code != 0:
        run.fail('server-failed', f'{last.name} ended with status {last.exit_code}: {last.stderr.text()[-400:]!r}')
        return
    for r in h.rows.values():
        if r['completion_time'] is None:
            run.fail('lost', f'{last.name} finished at {as_s(last.exit_time)} and {describe(r)} has no completion record')
            return
        if r['schedule_time'] is not None and not launch_failure(r) and not h.execs.get(r['id']):
            run.fail('never-run', f'{describe(r)} is recorded complete and was never executed')
            return
    links(run, meta['attempts'])
    got = sorted(r['args'] for r in h.roots())
    want = sorted(x.strip() for x in meta['lines'])
    for g in got:
        if g not in want:
            run.fail('lines', f'{g!r} was never submitted or stored twice')
            return
        want.remove(g)
    if meta['mode'] in ('restart', 'forever') and want:
        run.fail('lines', f'{want[0]!r} is not in the database any more')


def brief(row):
    return {k: (v[:8] if isinstance(v, str) and k.endswith('id') else v) for k, v in row.items()
            if k not in ('args', 'tag', 'outpath', 'errpath', 'command', 'submit_time', 'submit_id', 'submit_host')}
