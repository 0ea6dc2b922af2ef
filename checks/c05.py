"""C05: scheduling honours submission order, retry preference and size limits."""

from .common import *

RULE = ('a run counts when at least two bundles were scheduled; distinct means a different order in which threads were '
        'scheduled')
ASSUMPTIONS = ['SQLite is the database', 'tasks are submitted on one host, so that submission times are comparable']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    n = rng.randint(3, 24)
    retries = rng.choice([0, 1, 2, 4])
    size = rng.choice([1, 2, 3, 5, 8])
    qsize = rng.choice([1, 1, 2, 3])
    eager = rng.random() < 0.5
    lines = b.tasks(n, fail=rng.choice([0, 0.4, 0.8]), dur=rng.choice([(0, 0.2), (0, 2.0)]), seq=rng.choice([0, 0.5]),
                    weird=0.1)
    b.env(SERVER_QUEUESIZE=qsize, SERVER_EVICT=600, CLIENT_HEARTRATE=2)
    kind = rng.choice(['file', 'file', 'stdin', 'restart', 'forever', 'cluster', 'cluster'])
    args = ['-b', str(size), '-r', str(retries), *(['--eager'] if eager else [])]
    if kind == 'cluster':
        b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-N', str(rng.choice([1, 2, 4])), '-w', '1',
                          '-p', PORT, *args])
        return b.done(kind=kind, attempts=retries + 1, size=size, qsize=qsize, eager=eager, lines=lines)
    if kind == 'file':
        b.server(b.file('tasks.txt', lines), '-w', rng.choice([1, 3]), *args)
    elif kind == 'stdin':
        b.server('-', '-w', '1', *args, stdin=b.feed(lines, gap=(0, 3.0), burst=0.7))
    else:
        k = rng.randint(1, 3)
        for j in range(k):
            part = lines[j::k]
            if part:
                b.proc(f'submit{j}', ['hs', 'submit', b.file(f'tasks{j}.txt', part), '-b', str(rng.choice([1, 3, 50]))],
                       at=round(rng.uniform(0, 1 if kind == 'restart' else 12), 2))
        if kind == 'restart':
            b.server('--restart', *args, at=6)
        else:
            b.server('--forever', *args, at=1)
            b.fault(do='signal', proc='server', sig='SIGUSR1', at=250)
    for _ in range(rng.choice([1, 1, 2, 3])):
        b.client(N=rng.choice([1, 1, 2, 4]), b=rng.choice([1, 2, size]), w=1)
    return b.done(kind=kind, attempts=retries + 1, size=size, qsize=qsize, eager=eager, lines=lines)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    rows = {}                       # current state
    last_put = None                 # rows as they were when the scheduler was last seen to begin a new selection
    outstanding, bundles, handed = 0, 0, []
    expected = []                   # bundles scheduled in the database and not yet put
    for seq, t, kind, proc, data in run.events:
        if kind == 'db':
            changes = [(table, rid, old, new) for (table, rid), old, new in data['changes'] if table == 'task']
            picked = [new for table, rid, old, new in changes
                      if new is not None and new['schedule_time'] is not None and new['exit_status'] is None
                      and new['completion_time'] is None
                      and (old['schedule_time'] if old is not None else None) is None]
            if picked and proc == 'server':
                selection(run, meta, h, t, picked, rows, last_put)
                expected.append([r['id'] for r in picked])
            for table, rid, old, new in changes:
                if new is None:
                    rows.pop(rid, None)
                else:
                    rows[rid] = new
        elif kind == 'q-put' and data.get('q') == 'scheduled' and proc == 'server':
            ids = carried(data.get('obj'))
            outstanding += 1
            if outstanding > meta['qsize']:
                run.fail('queue-size', f"{outstanding} bundles are outstanding, the queue size is {meta['qsize']}", t)
                return
            if not ids:
                continue
            bundles += 1
            last_put = dict(rows)
            bundle(run, meta, h, t, ids)
            handed.append(ids)
        elif kind == 'q-get' and data.get('q') == 'scheduled':
            outstanding -= 1
        if run.violations:
            return
    run.nontrivial = bundles >= 2
    for a, b in zip(expected, handed):
        if set(a) != set(b):
            run.fail('put-order', f'bundles were put on the queue in another order than they were scheduled: {a} / {b}')
            return


def bundle(run, meta, h, t, ids):
    if len(ids) > meta['size']:
        run.fail('bundle-size', f"a bundle of {len(ids)} tasks was handed out, the bundle size is {meta['size']}", t)
        return
    if len(set(ids)) != len(ids):
        twice = next(x for x in ids if ids.count(x) > 1)
        run.fail('twice', f'{describe(h.rows[twice])} appears twice in one bundle', t)
        return
    first = [x for x in ids if h.rows[x]['attempt'] == 1] if all(x in h.rows for x in ids) else []
    times = [h.rows[x]['submit_time'] for x in first]
    if times != sorted(times):
        run.fail('order', f"within a bundle: {[h.rows[x]['args'] for x in first]} were submitted in another order", t)
        return
    if meta['eager']:
        kinds = [h.rows[x]['attempt'] > 1 for x in ids if x in h.rows]
        if kinds != sorted(kinds, reverse=True):
            run.fail('retry-order', 'eager mode: a new task precedes a retry in a bundle', t)


def selection(run, meta, h, t, picked, now, before):
    """`picked` were just marked scheduled; `before` is what the scheduler certainly saw."""
    ids = {r['id'] for r in picked}
    waiting = [] if before is None else [
        r for r in before.values() if r['schedule_time'] is None and r['id'] in now
        and now[r['id']]['schedule_time'] is None and r['id'] not in ids]
    fresh = [r for r in picked if r['attempt'] == 1]
    retry = [r for r in picked if r['attempt'] > 1]
    for r in fresh:
        for w in waiting:
            if w['submit_time'] < r['submit_time']:
                run.fail('order', f'{describe(r)} was handed out while {describe(w)}, submitted earlier, was waiting', t)
                return
    if not meta['eager']:
        if retry and waiting:
            run.fail('retry-preference', f'{describe(retry[0])} was handed out while {len(waiting)} new tasks were '
                     f'waiting: {describe(waiting[0])}', t)
    elif before is not None:
        ready = [r for r in before.values() if r['completion_time'] is not None and r['exit_status'] not in (None, 0)
                 and r['attempt'] < meta['attempts'] and not r['retried']]
        want = min(meta['size'], len(ready))
        if len(retry) < want and fresh:
            run.fail('eager', f'eager mode: {len(ready)} failed tasks were eligible for retry (bundle size '
                     f"{meta['size']}), but {len(retry)} retries and {len(fresh)} new tasks were handed out", t)
