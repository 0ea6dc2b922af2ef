"""C22: stopping the server by signal is orderly and resumable."""

from .c12 import escalation
from .common import *

RULE = ('a run counts when the server was signalled while tasks were not complete and ended; distinct means a different '
        'order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database and does not fail', 'the input of the server comes to its end',
               'a client connects to the server at some time', 'the server had set up its signal handling']
QUICK = {'runs': 1200, 'seconds': 65}
THOROUGH = {'runs': 50000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1200)
    n = rng.choice([1, 4, rng.randint(4, 20), rng.randint(20, 60)])
    retries = rng.choice([0, 0, 1, 2])
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.3), (0, 3), (1, 8), (5, 30)]), seq=rng.choice([0, 0.3]))
    size = rng.choice([1, 1, 2, 3, 8])
    evict = rng.choice([15, 60])
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=evict, CLIENT_HEARTRATE=rng.choice([1, 2, 5]))
    args = ['-b', str(size), '-r', str(retries), *(['--eager'] if rng.random() < 0.2 else [])]
    nc = ['--no-confirm'] if rng.random() < 0.1 else []
    mode = rng.choice(['file', 'stdin', 'restart', 'forever', 'forever'])
    kind = rng.choice(['server', 'server', 'server', 'cluster', 'cluster', 'ssh', 'auto'])
    wait = rng.choice([1, 2, 3])
    kw = {}
    stored = mode in ('restart', 'forever')
    if stored:
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 4, 50]))])
        kw = {'after': 'submit', 'delay': 1}
        args = [f'--{mode}', *args]
    elif mode == 'file':
        args = [b.file('tasks.txt', lines), *args, '-w', str(rng.choice([1, 2]))]
    else:
        args = ['-', *args, '-w', str(rng.choice([1, 2]))]
        kw = {'stdin': b.feed(lines, gap=(0, 2.0), burst=0.7)}
    names = []
    if kind == 'server':
        b.server(*args, *nc, **kw)
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            names.append(b.client(*nc, '-S', wait, *(['-T', rng.choice([5, 15])] if rng.random() < 0.15 else []),
                                  N=rng.choice([1, 2, 4]), b=rng.choice([1, 2, 8]), w=rng.choice([1, 2, 10]))['name'])
    else:
        argv = ['hs', 'cluster', *args, *nc, '-p', PORT, '-S', str(wait), '-N', str(rng.choice([1, 2, 4]))]
        if kind == 'ssh':
            hosts = [f'h{k}' for k in range(1, rng.choice([2, 3, 4]))]
            argv += ['--ssh', ','.join(hosts)]
            b.sc['hosts'] = ['h0', *hosts]
        elif kind == 'auto':
            argv += ['-A', rng.choice(['fixed', 'dynamic']), '-P', str(rng.choice([2, 5])), '-X', str(rng.choice([0, 1, 2])),
                     '-Y', '3', '-I', str(rng.choice([1, 2]))]
        b.proc('server', argv, **kw)
    sig = rng.choice(['SIGUSR1', 'SIGUSR1', 'SIGUSR2'])
    r = rng.random()
    if r < 0.08:                        # before it schedules anything
        b.fault(do='signal', sig=sig, proc='server', on=['server', *rng.choice([
            ('listen', 1), ('db-connect', rng.randint(1, 3)), ('db-execute', rng.randint(1, 12))])])
        b.fault(do='signal', sig=sig, proc='server', at=round(rng.uniform(60, 90), 1))
    elif r < 0.62:
        when = at_point(rng, 'server', [p for p in SERVER_POINTS if p[0] not in ('proc-main', 'listen')]
                        + [('db-execute', 200), ('serve:scheduled.get', 20), ('served:scheduled.get', 20),
                           ('served:confirmed.put', 6), ('served:completed.put', 6)])
        if 'serve' in when['on'][1]:
            when['on'][0] = 'server-manager'
        b.fault(do='signal', sig=sig, proc='server', **when)
        b.fault(do='signal', sig=sig, proc='server', at=round(rng.uniform(60, 90), 1))
    else:
        b.fault(do='signal', sig=sig, proc='server', at=round(rng.uniform(1.5, 40), 2))
    if rng.random() < 0.25:             # the whole job is signalled (or once more)
        t = next(f['at'] for f in b.sc['faults'] if 'at' in f)
        for name in (names or ['server']):
            if rng.random() < 0.7:
                b.fault(do='signal', sig=rng.choice([sig, 'SIGUSR1', 'SIGUSR2']), proc=name, at=round(t + rng.choice([0, 0.01, 2, 5]), 2))
    if names and rng.random() < 0.25:
        who = rng.choice(names)
        when = at_point(rng, who, CLIENT_POINTS) if rng.random() < 0.5 else {'at': round(rng.uniform(2, 60), 2)}
        b.fault(do=rng.choice(['kill', 'freeze']), proc=who, **when)
        if b.sc['faults'][-1]['do'] == 'freeze':
            b.sc['faults'][-1]['for'] = rng.choice([5, 12, 40])
    more = b.tasks(rng.choice([1, 2]), fail=0, dur=(0, 1))
    again = rng.choice(['restart', 'more', 'more', 'more'])
    if again == 'restart':
        more = []
    b.server(*([b.file('more.txt', more), '-w', '1'] if more else ['--restart']), '-b', rng.choice([1, 2, 8]),
             '-r', retries, *nc, name='server2', after='server', delay=rng.choice([1, 5]))
    b.client(*nc, N=rng.choice([2, 4]), b=1, w=1, name='last', server='server2')
    return b.done(mode=mode, kind=kind, attempts=retries + 1, lines=lines, more=more, names=names, evict=evict, wait=wait,
                  confirm=not nc)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    p = run.procs.get('server')
    if p is None or p.started is None or p.killed_by in ('signal 10', 'signal 12'):
        return
    lag = int(slack(run.scenario) * NS)
    told = [(seq, t) for seq, t, kind, proc, data in run.events if kind == 'signal' and proc == 'server'
            and data.get('sig') in ('SIGUSR1', 'SIGUSR2', 10, 12)]
    connected = any(kind == 'q-get' and proc == 'server' and data.get('q') == 'heartbeat' for seq, t, kind, proc, data in run.events)
    if not told or not connected:
        return
    seq0, T = told[0]
    if p.dead and p.killed_by == 'exit' and p.exit_code != 0:
        run.fail('server-failed', f'the server was signalled at {as_s(T)} and ended with status {p.exit_code}: '
                 f'{p.stderr.text()[-400:]!r}', p.exit_time)
        return
    over = p.exit_time if p.dead else run.sim.now
    # nothing further is handed out
    for rid, lst in h.task_changes.items():
        for seq, t, proc, old, new in lst:
            if proc != 'server' or new is None or t <= T + lag or t > over:
                continue
            if old is not None and old['schedule_time'] is None and new['schedule_time'] is not None:
                run.fail('handed-out', f'the server was signalled at {as_s(T)} and scheduled {describe(new)} at {as_s(t)}', t)
                return
            if old is None and new['attempt'] > 1:
                run.fail('retried', f'the server was signalled at {as_s(T)} and created {describe(new)} at {as_s(t)}', t)
                return
    if sum(1 for seq, t, kind, proc, data in run.events if kind == 'db' and proc == 'server' and seq > seq0 and t <= over
           and any(old is not None and new is not None and table == 'task' and old['schedule_time'] is None
                   and new['schedule_time'] is not None for (table, rid), old, new in data['changes'])) > 1:
        run.fail('handed-out', f'the server was signalled at {as_s(T)} and scheduled more than one bundle after it', T)
        return
    # it ends
    unfinished = [r for r in h.rows.values() if r['completion_time'] is None]
    hurt = {f['proc']: f for f in run.scenario['faults'] if f['do'] in ('kill', 'freeze')}
    clients = [q for q in run.procs.values() if q.name.startswith(('client', 'launched')) and q.started is not None]
    events = [T]
    for seq, t, kind, proc, data in run.events:
        if t > over:
            break
        if proc == 'server' and kind in ('stdin-eof', 'thaw', 'freeze'):
            events.append(t)
        elif kind == 'exec-end' or kind == 'thaw' or kind == 'proc-start':
            events.append(t)
    for q in clients:
        if q.dead and q.exit_time <= over:
            events.append(q.exit_time)
        elif not q.dead and not p.dead and not refused_late(run, q):
            events.append(run.sim.now)
    grace = 20 * NS + 6 * lag
    if hurt:
        grace += int(1.3 * meta['evict'] * NS)
    left = [t for t in events if t <= over]
    if over > max(left) + grace:
        run.fail('not-ended' if not p.dead else 'late', f'the server was signalled at {as_s(T)}, the last thing happened at '
                 f'{as_s(max(left))}, it {"ended " + as_s(over) if p.dead else "is still running"}; {tracebacks(run)[:2]}', over)
        return
    if not p.dead:
        run.fail('never-ends', f'the server was signalled at {as_s(T)} and is still running at {as_s(run.sim.now)}: '
                 f'{[(q.name, q.dead) for q in clients]}')
        return
    run.nontrivial = any(t > T for rid, lst in h.task_changes.items() for seq, t, proc, old, new in lst) or bool(unfinished)
    # every result of a task handed to a working client is there
    final = {rid: row_at(lst, over) for rid, lst in h.task_changes.items()}
    for seq, t, kind, proc, data in run.events:
        if kind != 'rpc-ok' or data.get('q') != 'scheduled' or data.get('m') != 'get' or t > over:
            continue
        q = run.procs[proc]
        if proc in hurt or not (q.name == 'server' or q.dead and q.killed_by == 'exit' and q.exit_code == 0):
            continue
        for rid in carried(data.get('obj')):
            row = final.get(rid)
            if row is not None and row['completion_time'] is None:
                run.fail('not-recorded', f'{describe(row)} was handed to {proc} at {as_s(t)}; the server ended at {as_s(over)} '
                         'without its result', over)
                return
    posted = {rid for seq, t, kind, proc, data in run.events if kind == 'q-put' and proc == 'server' and t <= over
              and data.get('q') == 'scheduled' for rid in carried(data.get('obj'))}
    steady = meta['kind'] in ('cluster', 'ssh') and len(told) >= 1 or any(
        q.name.startswith('client') and q.name not in hurt and '-T' not in q.argv and q.dead and q.exit_code == 0
        and not any(kind == 'signal' and proc == q.name for seq, t, kind, proc, data in run.events)
        and any(kind == 'rpc-ok' and proc == q.name and data.get('q') == 'heartbeat' for seq, t, kind, proc, data in run.events)
        for q in clients)
    for rid, row in final.items():
        if row is None or row['schedule_time'] is None or row['completion_time'] is not None:
            continue
        if rid not in posted:
            run.fail('left-scheduled', f'{describe(row)} was never handed out and is not waiting either when the server has ended '
                     f'at {as_s(over)}', over)
            return
        if steady and not hurt:
            run.fail('left-behind', f'{describe(row)} had been put on the queue and a client stayed; it is not complete when the '
                     f'server has ended at {as_s(over)}', over)
            return
    # what was not handed out is as it was
    for rid, lst in h.task_changes.items():
        row = final.get(rid)
        if row is None or row['schedule_time'] is not None:
            continue
        for seq, t, proc, old, new in lst:
            if t <= T + lag or t > over or old is None:
                continue
            if old['schedule_time'] is None:
                run.fail('touched', f'{describe(row)} was not handed out; it was changed at {as_s(t)} by {proc}: '
                         f'{[(f, old[f], new[f]) for f in old if old[f] != new[f]]}', t)
                return
            if not hurt and meta['kind'] != 'auto' and old['client_id'] is not None:
                run.fail('taken-back', f'{describe(row)} was taken back at {as_s(t)} although no client was lost', t)
                return
    stopped, both = {}, set()
    for seq, t, kind, proc, data in run.events:
        if kind == 'signal':
            if data.get('sig') in ('SIGUSR2', 12):
                stopped.setdefault(proc, t)
            else:
                both.add(proc)              # the later one counts
    if not escalation(run, None, meta['wait'], stopped, only={q for q in run.procs if q not in both or q not in stopped}):
        return
    lines_preserved(run, meta['lines'] + meta['more'] if run.procs.get('server2') is not None
                    and run.procs['server2'].started is not None else meta['lines'])
    data_unchanged(run)
    records_true(run)
    resumed(run, h, final, over, hurt)


def row_at(lst, when):
    row = None
    for seq, t, proc, old, new in lst:
        if t > when:
            break
        row = new
    return row


def resumed(run, h, final, over, hurt):
    """A later run completes the rest and nothing else."""
    meta = run.scenario['meta']
    p = run.procs.get('server2')
    if p is None or p.started is None:
        return
    todo = [r for r in final.values() if r is not None and (r['completion_time'] is None or r['exit_status'] != 0
            and r['attempt'] < meta['attempts'] and not r['retried'])]
    for rid, execs in h.execs.items():
        row = final.get(rid)
        if row is not None and row['completion_time'] is not None:
            again = [r for r in execs if r['start'] > over and r['client'] not in hurt]
            if again:
                run.fail('repeated', f'{describe(row)} was complete when the server ended at {as_s(over)} and was executed again '
                         f'at {as_s(again[0]["start"])}', again[0]['start'])
                return
    if not p.dead:
        if (todo or meta['more']) and hang_kind(run) == 'hang':
            open_ = [r for r in h.rows.values() if r['completion_time'] is None]
            run.fail('not-resumed', f'the later run has not ended at {as_s(run.sim.now)}; {len(open_)} tasks are not complete '
                     f'{describe(open_[0]) if open_ else ""}; {tracebacks(run)[:2]}')
        return
    ended(run, ['server2', 'last'])
    all_complete(run, 'server2')
    links(run, meta['attempts'])
