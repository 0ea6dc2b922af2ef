"""C02: without failures every task attempt runs exactly once."""

from .common import *

RULE = ('a run counts when at least two tasks were executed and the whole service (server, clients) ran; distinct means '
        'a different order in which threads were scheduled (hash over the sequence of thread choices)')
ASSUMPTIONS = ['no client fails and the server runs once', 'SQLite is the database',
               'the eviction period exceeds every injected delay']
QUICK = {'runs': 1600, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng)
    n = rng.randint(2, 24)
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.3), (0, 2.0), (0, 8.0)]), seq=rng.choice([0, 0.3]),
                    dup=rng.choice([0, 0.2]))
    size = rng.choice([1, 1, 2, 3, 5, 8])
    retries = rng.choice([0, 0, 1, 3])
    wait = rng.choice([1, 2, 5])
    noconfirm = ['--no-confirm'] if rng.random() < 0.15 else []
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=600, CLIENT_HEARTRATE=rng.choice([1, 5, 10]))
    mode = rng.choice(['file', 'file', 'stdin', 'restart', 'forever'])
    args = ['-b', size, '-w', wait, '-r', retries, *noconfirm]
    if mode == 'file':
        b.server(b.file('tasks.txt', lines), *args)
    elif mode == 'stdin':
        b.server('-', *args, stdin=b.feed(lines, gap=(0, 1.0)))
    elif mode == 'restart':
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 4, 50]))])
        b.server('--restart', *args, after='submit', delay=1)
    else:
        b.server('--forever', *args)
        for k in range(rng.randint(1, 3)):
            part = lines[k::3] if k < 2 else lines[2::3]
            if part:
                b.proc(f'submit{k}', ['hs', 'submit', b.file(f'tasks{k}.txt', part), '-b', str(rng.choice([1, 4]))],
                       at=3 + rng.uniform(0, 10))
        b.fault(do='signal', proc='server', sig='SIGUSR1', at=60 + 10 * n)
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        b.client(N=rng.choice([1, 1, 2, 4]), b=rng.choice([1, size, 3]), w=rng.choice([1, 3]), *noconfirm)
    return b.done(mode=mode, attempts=retries + 1)


def judge(run):
    h = history(run)
    run.nontrivial = len(run.ledger) >= 2
    executed_once(run)
    for rid, recs in h.execs.items():
        row = h.rows.get(rid)
        if row is not None and recs[0]['start'] < min([t for t in h.scheduled(rid)] or [1 << 62]):
            run.fail('before-schedule', f'{describe(row)} was executed before it was scheduled', recs[0]['start'])
    data_unchanged(run)
    records_true(run)
    all_complete(run)
    ended(run, ['server', *run.scenario['meta']['clients']])
    links(run, run.scenario['meta']['attempts'], finished=server_done(run) and run.scenario['meta']['mode'] != 'forever')
