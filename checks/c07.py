"""C07: a departing client finishes and returns everything it accepted."""

import re
from collections import Counter

from .common import *

RULE = ('a run counts when a client left that had accepted tasks; distinct means a different order in which threads '
        'were scheduled')
ASSUMPTIONS = ['neither the server nor the connection fails while the client is leaving']
QUICK = {'runs': 2500, 'seconds': 80}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1200)
    if rng.random() < 0.2:              # a slow server: results queue up
        b.sc['knobs'].update(db_max=rng.choice([0.2, 0.6]), db_tail_p=0)
    retries = rng.choice([0, 0, 1])
    n = rng.randint(1, 24)
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.2), (0, 3), (1, 8)]))
    mode = rng.choice(['file', 'file', 'stdin', 'forever', 'nodb'])
    size = rng.choice([1, 1, 2, 4, 8])
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=600, CLIENT_HEARTRATE=rng.choice([1, 2, 5]))
    args = ['-b', size, '-w', rng.choice([1, 1, 3]), '-r', retries]
    nc = ['--no-confirm'] if rng.random() < 0.1 else []
    if mode == 'file':
        b.server(b.file('tasks.txt', lines), *args, *nc)
    elif mode == 'nodb':
        args[-1] = 0
        b.server(b.file('tasks.txt', lines), *args, '--no-db', '--no-confirm')
        nc = ['--no-confirm']
        if rng.random() < 0.4:          # tasks wait in memory only when everyone leaves
            b.env(SERVER_QUEUESIZE=rng.choice([4, 20]))
            names = [b.client(*nc, N=rng.choice([1, 1, 2]), b=rng.choice([1, 2]), w=rng.choice([1, 3]))['name']
                     for _ in range(rng.choice([1, 1, 2]))]
            for nm in names:
                when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.6 else {'at': round(rng.uniform(1, 8), 2)}
                b.fault(do='signal', sig='SIGUSR1', proc=nm, **when)
            b.client(*nc, N=2, b=1, w=1, name='steady', delay=rng.choice([0.1, 5, 10, 30]))
            b.meta['clients'].remove('steady')
            b.sc['optional_procs'] = names[1:]
            return b.done(mode=mode, attempts=1, lines=lines, names=names)
    elif mode == 'stdin':
        b.server('-', *args, *nc, stdin=b.feed(lines, gap=(0, 6.0), burst=0.6))
    else:
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', '50'])
        b.server('--forever', *args, *nc, after='submit', delay=1)
        b.fault(do='signal', proc='server', sig='SIGUSR1', at=400)
    names = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        extra = list(nc)
        if rng.random() < 0.3:
            extra += ['-T', rng.choice([3, 5, 10, 20])]
        r = rng.random()
        if r < 0.25:
            extra += ['--capture']
        elif r < 0.4:
            extra += ['-o', f'%S%/out{k}', '-e', f'%S%/err{k}']
        names.append(b.client(*extra, N=rng.choice([1, 1, 2, 4, 8]), b=rng.choice([1, 1, 2, 3, 8, 50]),
                              w=rng.choice([1, 2, 5, 30]))['name'])
        if rng.random() < 0.3:
            when = at_point(rng, names[-1], CLIENT_POINTS) if rng.random() < 0.6 else {'at': round(rng.uniform(1, 30), 2)}
            b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGUSR1', 'SIGUSR2']), proc=names[-1], **when)
    if any(f['proc'] in names for f in b.sc['faults']) or any('-T' in p['argv'] for p in b.sc['procs']):
        b.client(*nc, N=2, b=1, w=1, name='steady', delay=rng.choice([0.1, 10, 30]))
        b.meta['clients'].remove('steady')
    leaving = [f for f in b.sc['faults'] if f['proc'] in names]
    if leaving and rng.random() < 0.4:  # a server that stalls just as a client is told to leave
        f = rng.choice(leaving)
        b.fault(do='freeze', proc='server', **{k: v for k, v in f.items() if k in ('on', 'at')}, **{'for': rng.choice([8, 15, 30])})
        if rng.random() < 0.5:
            b.env(SERVER_QUEUESIZE=1)
    elif rng.random() < 0.3:              # a server that stalls just when results are on their way
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.4:
                when = {'on': [rng.choice(names), rng.choice(['rpc:completed.put', 'rpc-done:completed.put', 'child-reaped']),
                               rng.randint(1, 4)]}
            elif r < 0.7:
                when = {'on': ['server', rng.choice(['db-commit', 'db-commit-done']), rng.randint(3, 30)]}
            else:
                when = {'at': round(rng.uniform(2, 25), 2)}
            b.fault(do='freeze', proc='server', **when, **{'for': rng.choice([4, 8, 15, 30])})
    b.sc['optional_procs'] = names[1:]
    return b.done(mode=mode, attempts=retries + 1, lines=lines, names=names)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    sends = {}
    for seq, t, kind, proc, data in run.events:
        if kind in ('rpc', 'rpc-ok', 'signal', 'fault', 'main-return', 'reply-lost'):
            sends.setdefault(proc, []).append((seq, t, kind, data))
    lag = int(slack(run.scenario) * NS)
    down = run.procs['server'].exit_time if run.procs['server'].dead else None
    for name in [*meta['names'], 'steady']:
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        accepted, returned, final, why, why_t, gets_after, last = [], [], None, None, None, 0, None
        limit = None
        if '-T' in p.argv:
            limit = int(p.argv[p.argv.index('-T') + 1])
        for seq, t, kind, data in sends.get(name, ()):
            q, m = data.get('q'), data.get('m')
            if kind == 'rpc' and q == 'scheduled' and m == 'get':
                if why == 'disconnected' or (why and t > why_t + lag):
                    gets_after += 1
                    if gets_after > (0 if why == 'disconnected' else 1):
                        run.fail('took-more', f'{name} asked for tasks at {as_s(t)} after it was {why} at {as_s(why_t)}', t)
                        return
            elif kind == 'rpc-ok' and q == 'scheduled' and m == 'get':
                ids = carried(data.get('obj'))
                accepted += ids
                last = t
                if data.get('obj') is None and why is None:
                    why, why_t = 'disconnected', t
            elif kind == 'rpc-ok' and q == 'completed' and m == 'put':
                returned += carried(data.get('obj'))
            elif kind == 'rpc' and q == 'heartbeat' and data.get('obj') and json.loads(data['obj'])['state'] == 1:
                final = (seq, t)
            elif kind == 'signal' and p.started is not None and why is None and data.get('sig') in ('SIGUSR1', 'SIGUSR2', 10, 12):
                why, why_t = 'signalled', t
        if refused_late(run, p):
            continue
        if not p.dead:
            if run.procs['server'].dead and server_done(run) or final is not None or why is not None:
                run.fail('stuck', f'{name} is still running at {as_s(run.sim.now)} ({why or "server gone"} at {as_s(why_t)})')
                return
            continue
        if p.killed_by != 'exit':
            if p.killed_by in ('signal 10', 'signal 12'):
                continue                 # the signal arrived before the program was ready for it
            run.fail('killed', f'{name} ended by {p.killed_by}')
            return
        if p.exit_code != 0:
            if accepted or (down is None or p.exit_time < down):
                run.fail('exit-status', f'{name} ended with status {p.exit_code}: {p.stderr.text()[-300:]!r}', p.exit_time)
                return
            continue
        if final is None:
            run.fail('no-goodbye', f'{name} left at {as_s(p.exit_time)} without reporting itself disconnected')
            return
        if accepted and (why or limit):
            run.nontrivial = True
        for rid in accepted:
            done = [r for r in h.execs.get(rid, ()) if r['client'] == name]
            row = h.rows.get(rid)
            if rid not in returned:
                run.fail('dropped', f'{name} left at {as_s(p.exit_time)} without returning '
                         f'{describe(row) if row else rid} ({why or "idle"}, executed {len(done)} times)', p.exit_time)
                return
            if not done and not (row is not None and launch_failure(row)):
                run.fail('not-executed', f'{name} accepted {describe(row) if row else rid} and did not run it')
                return
            if any(r['end'] is None for r in done):
                run.fail('unfinished', f'{name} left while {describe(row) if row else rid} was running', p.exit_time)
                return
        if why is None:
            if limit is None:
                run.fail('no-reason', f'{name} left at {as_s(final[1])} for no reason', final[1])
                return
            since = last if last is not None else p.started
            if final[1] < since + limit * NS:
                run.fail('left-early', f'{name} left at {as_s(final[1])}, {(final[1] - since) / NS:.1f}s after its last '
                         f'bundle, the timeout is {limit}s', final[1])
                return
        for rid in accepted:
            row = h.rows.get(rid)
            if row is not None and down is not None and server_done(run) and row['completion_time'] is None:
                run.fail('not-recorded', f'{describe(row)} was returned by {name} and has no completion record')
                return
    if meta['mode'] == 'nodb' and run.procs['server'].dead:
        if not server_done(run):
            run.fail('server-failed', f"the server ended with status {run.procs['server'].exit_code}: "
                     f"{run.procs['server'].stderr.text()[-300:]!r}")
            return
        ran = Counter(r['token'] for r in run.ledger)
        for line in meta['lines']:
            m = re.search(r'@(\w+)@', line)
            if m and ran[m.group(1)] != 1:
                run.fail('left-behind', f'{line!r} was executed {ran[m.group(1)]} times by the clients of a server without '
                         f'database that ended at {as_s(down)}')
                return
