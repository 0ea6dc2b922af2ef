"""C11: the failure stream lists exactly the failed task attempts."""

from collections import Counter

from .common import *

RULE = ('a run counts when a result with a non-zero status was received while failures were redirected; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['the server is not killed', 'the disk accepts what is written to the failure file']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1200)
    if rng.random() < 0.3:
        b.sc['knobs'].update(feeder_tail_p=rng.choice([0.1, 0.3]), feeder_tail=rng.choice([0.5, 4.0]))
    n = rng.randint(1, 30)
    lines = b.tasks(n, fail=rng.choice([0, 0.3, 0.6, 1.0]), dur=rng.choice([(0, 0.2), (0, 2.0), (1, 6)]),
                    weird=rng.choice([0, 0.6]), dup=rng.choice([0, 0.2]), seq=rng.choice([0, 0.3]), bare=rng.choice([0, 0.1]))
    if rng.random() < 0.3:              # large enough for the buffer of the file to be written in between
        lines = [x + ' ' + 'y' * rng.choice([200, 900]) for x in lines]
    retries = rng.choice([0, 0, 1, 3])
    to = rng.choice(['file', 'file', 'print', 'dash'])
    kind = rng.choice(['db', 'db', 'db', 'nodb', 'cluster', 'evict', 'signal'])
    sink = {'file': ['-f', '%S%/failed.txt'], 'print': ['--print'], 'dash': ['-f', '-']}[to]
    template = ['-t', rng.choice(['echo {}', '{} 2>&1', 'sh -c "{}"'])] if rng.random() < 0.4 else []
    if kind == 'cluster':
        to = 'file'
        src = b.file('tasks.txt', lines) if rng.random() < 0.6 else '-'
        kw = {'stdin': b.feed(lines, gap=(0, 1))} if src == '-' else {}
        db = [] if rng.random() < 0.7 else ['--no-db']
        b.proc('server', ['hs', 'cluster', src, '-N', str(rng.choice([1, 2, 4])), '-b', str(rng.choice([1, 3])),
                          '-w', str(rng.choice([1, 3])), '-r', str(retries), '-p', PORT, '-f', '%S%/failed.txt', *template, *db], **kw)
        return b.done(kind=kind, to=to, nodb=bool(db))
    names = service(b, lines, retries=0 if kind == 'nodb' else retries, evict=10 if kind == 'evict' else 600,
                    heartrate=rng.choice([1, 2]), mode=rng.choice(['file', 'stdin']) if kind == 'nodb' else None,
                    client_args=template, server_args=sink + (['--no-db'] if kind == 'nodb' else []))
    if kind == 'evict':
        b.client(N=2, b=1, w=1, name='steady')
        for nm in names:
            when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.5 else {'at': round(rng.uniform(1, 20), 2)}
            b.fault(do='freeze', proc=nm, **{'for': rng.choice([9, 13, 20])}, **when)
    elif kind == 'signal':
        b.fault(do='signal', proc='server', sig=rng.choice(['SIGUSR1', 'SIGUSR2']), at=round(rng.uniform(3, 20), 2))
    b.sc['optional_procs'] = names[1:]
    return b.done(kind=kind, to=to, nodb=kind == 'nodb')


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    p = run.procs['server']
    if not p.dead or p.killed_by != 'exit' or p.exit_code != 0:
        if p.dead and p.killed_by == 'exit':
            run.fail('exit-status', f'server ended with status {p.exit_code}: {p.stderr.text()[-300:]!r}')
        return
    want = Counter()
    if meta['nodb']:
        for seq, t, kind, proc, data in run.events:
            if kind == 'q-get' and data.get('q') == 'completed' and proc == 'server' and isinstance(data.get('obj'), list):
                for x in data['obj']:
                    x = json.loads(x)
                    if x['exit_status'] != 0:
                        want[x['args']] += 1
        ran = Counter(r['env']['TASK_ARGS'] for r in run.ledger if r['status'] not in (0, None))
        for a, k in ran.items():
            if want[a] < k:
                run.fail('missed', f'{a!r} failed {k} times and the server received {want[a]} such results')
                return
    else:
        for r in h.rows.values():
            if r['completion_time'] is not None and r['exit_status'] != 0:
                want[r['args']] += 1
    text = run.read_file('failed.txt') if meta['to'] == 'file' else p.stdout.text()
    if text is None:
        run.fail('no-file', 'the failure file was not written')
        return
    got = text.split('\n')
    if got[-1] != '':
        run.fail('torn', f'the failure stream ends with a partial line {got[-1][:80]!r}')
        return
    got = Counter(got[:-1])
    run.nontrivial = bool(want)
    for a in got:
        if got[a] != want[a]:
            run.fail('listed', f'{a!r} is listed {got[a]} times and {want[a]} attempts with these arguments failed')
            return
    for a in want:
        if got[a] != want[a]:
            run.fail('missing', f'{a!r} is listed {got[a]} times and {want[a]} attempts with these arguments failed')
            return
