"""C10: database-free runs deliver every task once and collect every result."""

from collections import Counter

from .common import *

RULE = ('a run counts when at least two tasks were executed without a database; distinct means a different order in which '
        'threads were scheduled')
ASSUMPTIONS = ['no process fails', 'the eviction period exceeds every injected delay',
               'tasks submitted directly from elsewhere are judged when they were accepted before the own input of the '
               'server was exhausted']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}

AUTO = '''
thread = load('hypershell.server').ServerThread.new(
    source=%(lines)r, bundlesize=%(size)d, bundlewait=%(wait)d, no_confirm=%(noconfirm)r, max_retries=0,
    address=('localhost', 50001), auth='sesame', evict_after=600)
thread.join()
'''
LIVE = '''
QueueConfig = load('hypershell.core.queue').QueueConfig
count = load('hypershell.submit').submit_from(
    %(lines)r, queue_config=QueueConfig(host='localhost', port=50001, auth='sesame'), bundlesize=%(size)d, bundlewait=%(wait)d)
note('live-count', n=count)
'''


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    if rng.random() < 0.5:              # puts stay in transit for a while
        b.sc['knobs'].update(feeder_tail_p=rng.choice([0.1, 0.3]), feeder_tail=rng.choice([0.5, 4.0]))
    n = rng.choice([1, 2, 5, rng.randint(2, 40), rng.randint(2, 40)])
    if rng.random() < 0.04:
        n = 0
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.2), (0, 2.0), (0, 6.0)]), dup=rng.choice([0, 0.2]),
                    weird=rng.choice([0, 0.5]), bare=rng.choice([0, 0, 0.2]))
    size, wait = rng.choice([1, 1, 2, 3, 8, 50]), rng.choice([1, 1, 2, 5])
    noconfirm = rng.random() < 0.5
    nc = ['--no-confirm'] if noconfirm else []
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4, 8]), SERVER_EVICT=600, CLIENT_HEARTRATE=rng.choice([1, 2, 5]))
    kind = rng.choice(['server', 'server', 'server', 'live', 'cluster', 'auto-cluster', 'auto'])
    nodb = kind in ('auto', 'auto-cluster') or rng.random() < 0.4
    if nodb:
        b.sc['env']['HYPERSHELL_DATABASE_FILE'] = None
        del b.sc['env']['HYPERSHELL_DATABASE_FILE']
    args = ['-b', str(size), '-w', str(wait), '-r', str(rng.choice([0, 0, 2])), *nc]
    live = []
    if kind in ('server', 'live'):
        if kind == 'server' and rng.random() < 0.5:
            b.server(b.file('tasks.txt', lines), *args, '--no-db')
        else:
            feed = b.feed(lines, gap=rng.choice([(0, 0.5), (0, 4.0)]), burst=rng.choice([0.2, 0.8]))
            if kind == 'live':
                feed.append([(feed[-1][0] if feed else 0) + 150, ''])
            b.server('-', *args, '--no-db', stdin=feed)
    elif kind == 'auto':
        b.proc('server', ['script', 'server'], script=AUTO % {'lines': lines, 'size': size, 'wait': wait, 'noconfirm': noconfirm})
    else:
        src = b.file('tasks.txt', lines) if rng.random() < 0.5 else '-'
        kw = {'stdin': b.feed(lines, gap=(0, 1.0), burst=0.7)} if src == '-' else {}
        b.proc('server', ['hs', 'cluster', src, '-N', str(rng.choice([1, 2, 4])), *args,
                          *(['--no-db'] if kind == 'cluster' else [])], **kw)
    if kind == 'live':
        for k in range(rng.choice([1, 2, 3])):
            more = b.tasks(rng.randint(1, 12), fail=0.2, dur=(0, 1.0))
            live += more
            b.proc(f'live{k}', ['script', 'live'], upon=['server', 'listen', 1], delay=round(rng.uniform(1, 10), 2),
                   script=LIVE % {'lines': more, 'size': rng.choice([1, 2, 5, 50]), 'wait': rng.choice([1, 2])})
    if 'cluster' not in kind:
        for k in range(rng.choice([1, 1, 2, 3, 5])):
            b.client(*nc, N=rng.choice([1, 1, 2, 4]), b=rng.choice([1, 1, 2, 5, 50]), w=rng.choice([1, 1, 3, 10]))
    b.sc['optional_procs'] = b.meta['clients'][1:]
    return b.done(kind=kind, lines=lines, live=live)


def judge(run):
    meta = run.scenario['meta']
    run.nontrivial = len(run.ledger) >= 2
    server = run.procs['server']
    names = ['server', *[n for n in meta['clients'] if n in run.procs], *[n for n in run.procs if n.startswith('live')]]
    ended(run, names)
    for name, text in tracebacks(run):
        if not any(refused_late(run, p) for p in run.procs.values()):
            run.fail('traceback', f'{name}: {text}')
            break
    want = Counter(x.strip() for x in meta['lines'] + meta['live'])
    if meta['live'] and not all(run.procs[n].dead for n in names):
        return
    ran = Counter(r['env'].get('TASK_ARGS') for r in run.ledger)
    ids = Counter(r['env'].get('TASK_ID') for r in run.ledger)
    for a in ran:
        if a not in want:
            run.fail('unknown', f'{a!r} was executed and never submitted')
            return
    for rid, k in ids.items():
        if k != 1:
            rec = next(r for r in run.ledger if r['env'].get('TASK_ID') == rid)
            run.fail('not-once', f"task {rec['env']['TASK_ARGS']!r} was executed {k} times")
            return
    delivered, received = Counter(), {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'rpc-ok' and data.get('q') == 'scheduled' and data.get('m') == 'get':
            delivered.update(carried(data.get('obj')))
        elif kind == 'q-get' and data.get('q') == 'completed' and proc == 'server' and isinstance(data.get('obj'), list):
            for x in data['obj']:
                x = json.loads(x)
                received.setdefault(x['id'], []).append((t, x))
    for rid, k in delivered.items():
        if k != 1:
            run.fail('delivered', f'task {rid} was delivered {k} times')
            return
    for rid, got in received.items():
        if len(got) != 1:
            run.fail('returned', f"the result of {got[0][1]['args']!r} was received {len(got)} times")
            return
        t, x = got[0]
        rec = [r for r in run.ledger if r['env'].get('TASK_ID') == rid]
        if rec and (rec[0]['status'] != x['exit_status'] or rec[0]['command'] != x['command']):
            run.fail('result', f"{x['args']!r}: received status {x['exit_status']} and command {x['command']!r}, the program "
                     f"{rec[0]['command']!r} returned {rec[0]['status']}", t)
            return
    if not server.dead or server.killed_by != 'exit':
        return
    for a, k in want.items():
        if ran[a] != k:
            run.fail('lost', f'{a!r} was submitted {k} times and executed {ran[a]} times; the server ended at '
                     f'{as_s(server.exit_time)}')
            return
    for r in run.ledger:
        if r['env']['TASK_ID'] not in received:
            run.fail('no-result', f"{r['env']['TASK_ARGS']!r} was executed by {r['client']} and the server never received "
                     f'the result (server ended at {as_s(server.exit_time)})')
            return
    for seq, t, kind, proc, data in run.events:
        if kind == 'live-count':
            k = sum(1 for x in meta['live'])
            run.live = getattr(run, 'live', 0) + data['n']
    if meta['live'] and run.live != len(meta['live']):
        run.fail('count', f"{len(meta['live'])} tasks were submitted directly and {run.live} were reported")
