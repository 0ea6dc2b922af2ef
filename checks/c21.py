"""C21: finished results reach the server without undue delay."""

from .common import *
from .c12 import lateness

RULE = ('a run counts when at least two bundles of results were returned; distinct means a different order in which threads '
        'were scheduled')
ASSUMPTIONS = ['time during which the queue of returned bundles is full, or a bundle is on its way, does not count',
               'threads of the client are delayed by no more than the configured bound']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1500)
    if rng.random() < 0.2:              # a slow server: results queue up
        b.sc['knobs'].update(db_max=rng.choice([0.2, 0.6]), db_tail_p=0)
    if rng.random() < 0.2:
        b.sc['knobs'].update(net_max=rng.choice([0.5, 2.0]))
    n = rng.randint(2, 30)
    lines = b.tasks(n, fail=rng.choice([0, 0.3]),
                    dur=rng.choice([(0, 0.2), (0, 3), (1, 8), (0, 20), (4, 4.2)]), seq=rng.choice([0, 0.2]))
    size = rng.choice([1, 2, 3, 5, 8, 20])
    kind = rng.choice(['service', 'service', 'service', 'nodb', 'cluster', 'drip'])
    args = lambda: ['-b', str(rng.choice([1, 2, 3, 5, 10, 50])), '-w', str(rng.choice([1, 2, 3, 5, 10, 30, 60]))]
    ways = {}
    if kind == 'cluster':
        a = args()
        b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]))
        N = rng.choice([1, 2, 4, 8])
        db = ['--no-db', '--no-confirm'] if rng.random() < 0.3 else ['-r', str(rng.choice([0, 1]))]
        b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-N', str(N), '-p', PORT, *a, *db])
        ways['server'] = [int(a[1]), int(a[3]), N]
        attempts = 2 if db[-1] == '1' else 1
    else:
        retries = rng.choice([0, 0, 1])
        nc = []
        attempts = retries + 1
        if kind == 'service':
            b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 8]), SERVER_EVICT=600, CLIENT_HEARTRATE=rng.choice([1, 2, 5]))
            b.server(b.file('tasks.txt', lines), '-b', size, '-w', 1, '-r', retries)
        elif kind == 'drip':            # tasks come one by one: bundles do not fill up
            b.env(SERVER_QUEUESIZE=4)
            b.server('-', '-b', rng.choice([1, 1, size]), '-w', 1, '-r', retries,
                     stdin=b.feed(lines, gap=rng.choice([(0, 2.0), (0, 10.0)]), burst=0.3))
        else:
            nc = ['--no-confirm']
            attempts = 1
            b.env(SERVER_QUEUESIZE=rng.choice([1, 2, 8]))
            b.server(b.file('tasks.txt', lines), '-b', size, '-w', 1, '--no-db', *nc)
        for k in range(rng.choice([1, 1, 2, 3])):
            a = args()
            N = rng.choice([1, 1, 2, 3, 8])
            extra = ['-T', str(rng.choice([8, 20]))] if k and rng.random() < 0.3 else []
            p = b.client(*extra, *nc, N=N, b=a[1], w=a[3])
            ways[p['name']] = [int(a[1]), int(a[3]), N]
            if extra:
                b.sc.setdefault('optional_procs', []).append(p['name'])
    if kind != 'cluster' and rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2])):
            when = {'on': [rng.choice(sorted(ways)), rng.choice(['rpc:completed.put', 'rpc-done:completed.put', 'child-reaped']),
                           rng.randint(1, 4)]} if rng.random() < 0.6 else {'at': round(rng.uniform(2, 25), 2)}
            b.fault(do='freeze', proc='server', **when, **{'for': rng.choice([2, 4, 8, 15])})
    return b.done(kind=kind, attempts=attempts, lines=lines, ways=ways, nodb=kind == 'nodb')


def judge(run):
    meta = run.scenario['meta']
    for name, (size, wait, count) in meta['ways'].items():
        returned(run, name, size, wait, count)
        if run.violations:
            return
    written(run)
    ended(run, ['server', *[n for n in meta['ways'] if n != 'server']], None if meta['nodb'] else 0)


def returned(run, name, size, wait, count):
    """What client `name` returned, and when."""
    p = run.procs.get(name)
    if p is None or p.started is None:
        return
    lag = int((lateness(run.scenario) + 0.15) * NS)
    k = run.scenario['knobs']
    opening = int((6 * k.get('net_max', 0.001) + (2 * k.get('net_tail', 0.5) if k.get('net_tail_p') else 0)
                   + sum(f.get('for', 0) for f in run.scenario['faults'])) * NS)
    puts = []                       # [requested, answered (or None), ids, accepted]
    for seq, t, kind, proc, data in run.events:
        if proc != name or data.get('q') != 'completed':
            continue
        ids = carried(data.get('obj'))
        if kind == 'rpc' and data.get('m') == 'put' and ids:
            if puts and puts[-1][1] is not None and not puts[-1][3] and t > puts[-1][1] + 2 * NS + lag:
                run.fail('gave-up', f'the queue of results was full at {as_s(puts[-1][1])}, {name} tried again at {as_s(t)}', t)
                return
            puts.append([t, None, ids, False])
        elif kind == 'rpc-ok' and data.get('m') == 'put' and puts and ids:
            puts[-1][1], puts[-1][3] = t, True
        elif kind == 'rpc-fail' and data.get('m') == 'put' and puts and puts[-1][1] is None:
            puts[-1][1] = t                     # the queue was full
    if sum(1 for x in puts if x[3]) >= 2:
        run.nontrivial = True
    runs = {}
    for r in run.ledger:
        if r['client'] == name and r['env'].get('TASK_ID'):
            runs.setdefault(r['env']['TASK_ID'], []).append(r)
    gone = {}
    for start, end, ids, ok in puts:
        if len(ids) > size:
            run.fail('too-large', f'{name} returned a bundle of {len(ids)} results, its bundle size is {size}', start)
            return
        for rid in ids:
            done = runs.get(rid, [])
            if not done or done[0]['end'] is None or done[0]['end'] > start:
                run.fail('unfinished', f'{name} returned {rid} at {as_s(start)}: not finished', start)
                return
            if rid in gone or ids.count(rid) > 1:
                run.fail('twice', f'{name} returned the result of {done[0]["command"][:60]!r} at {as_s(gone.get(rid, start))} '
                         f'and again at {as_s(start)}', start)
                return
        if ok:
            gone.update((rid, start) for rid in ids)
    # when each result was first offered
    offered = {}
    for start, end, ids, ok in puts:
        for rid in ids:
            offered.setdefault(rid, start)
    last = p.exit_time if p.dead else run.sim.now
    if puts:                        # the first one had to open the connection
        puts.insert(0, [puts[0][0] - opening, puts[0][0] - 1, [], True])
    ends = sorted((r[0]['end'], rid) for rid, r in runs.items() if r[0]['end'] is not None)
    for k, (e, rid) in enumerate(ends):
        # a bundle that leaves before this one may take its time on the way; nothing stays behind when one is not full
        turns = 2
        limit = e + wait * NS + NS + lag
        for start, end, ids, ok in puts:
            if rid in ids or start > limit:
                break
            end = last if end is None else end
            if end > e - lag and turns > 0:
                limit = max(limit, end + wait * NS + NS + lag)
                turns -= ok and len(ids) < size and start > e + lag
        seen = offered.get(rid)
        if (last if seen is None else seen) > limit:
            run.fail('late', f"{runs[rid][0]['command'][:60]!r} finished at {as_s(e)} on {name}, which returned it at "
                     f'{as_s(seen)} (bundle wait {wait}s, size {size}); it was due by {as_s(limit)}', limit)
            return
    # full bundles are not held back
    for k, (e, rid) in enumerate(ends):
        held = [other for x, other in ends if x <= e and offered.get(other, last) > e]
        if len(held) < size:
            continue
        due = e + lag
        for start, end, ids, ok in puts:
            end = last if end is None else end
            if start <= due and end > e - lag:
                due = max(due, end + lag)
        first = min(offered.get(other, last) for other in held)
        if first > due:
            run.fail('held-back', f'{len(held)} results were waiting on {name} at {as_s(e)} (bundle size {size}), the first was '
                     f'returned at {as_s(first)}', first)
            return


def written(run):
    """A result that reached the server is recorded soon."""
    if run.scenario['meta']['nodb'] or '--no-db' in run.scenario['procs'][0]['argv']:
        return
    h = history(run)
    k = run.scenario['knobs']
    arrived = {}
    frozen = sum(f.get('for', 0) for f in run.scenario['faults'])
    for seq, t, kind, proc, data in run.events:
        if kind == 'rpc-ok' and data.get('q') == 'completed' and data.get('m') == 'put':
            for rid in carried(data.get('obj')):
                arrived.setdefault(rid, t)
    slow = 5 + frozen + 4 * slack(run.scenario) + (2 + len(arrived)) * 30 * k.get('db_max', 0.0005)
    for rid, t in arrived.items():
        row = h.rows.get(rid)
        if row is None:
            continue
        done = h.done_at(rid)
        if (done if done is not None else run.sim.now) > t + int(slow * NS):
            run.fail('not-written', f'the result of {describe(row)} was returned at {as_s(t)} and recorded at {as_s(done)}', t)
            return
