"""C26: losing the server, its database or a connection hangs nobody and hides nothing."""

from .common import *

RULE = ('a run counts when the server, its database or a connection failed while a client was connected; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database', 'the loss of a connection is noticed by the operating system (reset or closed)',
               'the helper process of a server dies with it', 'the database works again when the server is restarted']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    lost = rng.choice(['kill', 'kill', 'kill', 'reset', 'db', 'db', 'disk'])
    n = rng.choice([1, 3, 6, 12, 20])
    lines = b.tasks(n, fail=rng.choice([0, 0.3]) if lost != 'disk' else 0.7,
                    dur=rng.choice([(0, 0.5), (0, 4.0), (3, 12.0), (5, 40.0)]), weird=0)
    mode = rng.choice(['db', 'db', 'db', 'nodb', 'forever', 'stdin', 'cluster', 'remote'])
    if mode == 'nodb' and lost == 'db' or mode == 'cluster' and lost in ('kill', 'reset') or mode == 'remote' and lost == 'reset':
        mode = 'db'
    extra = []
    if rng.random() < 0.25:
        extra += ['-T', rng.choice([3, 6, 10])]
    if rng.random() < 0.2:
        extra += ['--capture']
    size, wait, retries = rng.choice([1, 1, 2, 4]), rng.choice([1, 1, 3]), rng.choice([0, 0, 1])
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=20, CLIENT_HEARTRATE=rng.choice([1, 2, 5]))
    src = b.file('tasks.txt', lines)
    args = ['-b', size, '-w', wait]
    if mode != 'nodb':
        args += ['-r', retries]
    if lost == 'disk':
        args += ['-f', '%S%/failed.txt']
        b.sc['write_plan'] = [{'path': 'failed.txt', 'proc': 'server', 'err': rng.choice(['ENOSPC', 'EIO']),
                               'after': rng.choice([0, 10, 60]), 'left': rng.choice([1, 1000])}]
    if mode == 'cluster':
        b.proc('server', ['hs', 'cluster', src, '-N', str(rng.choice([1, 2, 4])), '-p', PORT, *map(str, args)])
    elif mode == 'remote':
        how = rng.choice([['--ssh', 'h1,h2'], ['--launcher', 'srun -n 2'], ['-A', 'fixed', '-F', '1', '-X', '1', '-Y', '2', '-I', '2', '-P', '3'],
                          ['-A', 'dynamic', '-F', '1', '-X', '0', '-Y', '3', '-I', '1', '-P', '3']])
        b.sc['hosts'] = ['h0', 'h1', 'h2']
        b.proc('server', ['hs', 'cluster', src, '-N', str(rng.choice([1, 2, 4])), '-p', PORT, *map(str, args), *how])
    elif mode == 'nodb':
        b.server(src, *args, '--no-db')
    elif mode == 'forever':
        b.proc('submit', ['hs', 'submit', src])
        b.server('--forever', *args, after='submit', delay=0.5)
    elif mode == 'stdin':
        b.server('-', *args, stdin=b.feed(lines, gap=(0, 4.0), burst=0.5))
    else:
        b.server(src, *args)
    names = [] if mode in ('cluster', 'remote') else [
        b.client(*extra, N=rng.choice([1, 2, 4, 8]), b=rng.choice([1, 1, 2, 4]), w=rng.choice([1, 1, 3, 10]))['name']
        for _ in range(rng.choice([1, 1, 2, 3]))]
    for nm in names:
        if rng.random() < 0.35:       # it is leaving when the server is lost
            b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGUSR1', 'SIGUSR2']), proc=nm,
                    **(at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.4 else {'at': round(rng.uniform(2, 12), 2)}))
    if (lost == 'reset' or lost in ('db', 'disk') and names and (extra or b.sc['faults'])) and mode not in ('cluster', 'remote'):
        b.client(N=2, b=1, w=1, name='steady', delay=rng.choice([0.1, 5]))
    if lost in ('kill', 'reset'):
        nm = rng.choice(names or ['launched1', 'launched2'])
        r = rng.random()
        when = (at_point(rng, nm, CLIENT_POINTS) if r < 0.5 else
                {'on': [nm, rng.choice(['child-reaped', 'child-wait', 'rpc:completed.put']), rng.randint(1, 20)]} if r < 0.6 else
                {'at': round(rng.uniform(1, 30), 2)})
        b.fault(do=lost, proc='server' if lost == 'kill' else nm, **when)
    elif lost == 'db':
        b.sc['db_plan'] = [{'proc': 'server', 'op': rng.choice(['execute', 'execute', 'commit']), 'n': rng.randint(8, 90),
                            'left': rng.choice([1, 1, 3, 100000]),
                            'err': rng.choice(['disk I/O error', 'database or disk is full', 'database is locked'])}]
    again = mode in ('db', 'cluster', 'remote') and lost in ('kill', 'db', 'disk') and rng.random() < 0.4
    if again:
        b.server('--restart', '-b', size, '-w', wait, '-r', retries, name='server2', upon=['server', 'proc-end', 1],
                 delay=rng.choice([0.1, 2, 10]))
        b.client(N=4, b=1, w=1, name='fresh', server='server2')
    b.sc['optional_procs'] = [*names[1:], 'steady', 'launched1', 'launched2']
    return b.done(names=names, lost=lost, mode=mode, again=again)


def judge(run):
    sc, meta = run.scenario, run.scenario['meta']
    server = run.procs.get('server')
    lost, hit, took, back, connected = None, {}, {}, {}, {}
    for seq, t, kind, proc, d in run.events:
        if kind == 'fault' and d.get('do') in ('kill', 'reset'):
            lost = t
        elif kind == 'connected':
            connected.setdefault(proc, t)
        elif kind == 'rpc-lost' and lost is not None:
            hit.setdefault(proc, t)
        elif kind == 'rpc-ok' and d.get('q') == 'scheduled' and d.get('m') == 'get':
            took.setdefault(proc, []).extend(carried(d.get('obj')))
        elif kind in ('rpc-ok', 'reply-lost') and d.get('q') == 'completed' and d.get('m') == 'put':
            back.setdefault(proc, set()).update(carried(d.get('obj')))
    fired = run.sim.fired.get('db-error') or run.sim.fired.get('disk-full') or run.sim.fired.get('disk-error')
    if server is None or server.started is None or lost is None and meta['lost'] in ('kill', 'reset'):
        return
    if meta['lost'] in ('db', 'disk') and not fired:
        return
    late = (60 + 4 * slack(sc)) * NS
    last = max([0] + [r['end'] if r['end'] is not None else run.sim.now for r in run.ledger])
    clients = [*meta['names'], *(n for n in run.procs if n == 'steady' or n.startswith('launched') and '-' not in n)]
    procs = {n: run.procs[n] for n in clients if n in run.procs and run.procs[n].started is not None}
    gone = server.exit_time if server.dead else None
    # the server itself
    if not server.dead:
        h = history(run)
        stays = meta['mode'] == 'forever' or any('-A' in p['argv'] for p in sc['procs'])      # (it waits for more tasks)
        idle = stays and all(r['completion_time'] is not None for r in h.rows.values())
        alone = meta['mode'] not in ('cluster', 'remote') and not any(p.exit_code == 0 or not p.dead for p in procs.values())     # (nobody does its work)
        if not idle and not alone and hang_kind(run) != 'hang-unconfirmed' and run.sim.now > max(last, lost or 0) + 200 * NS:
            run.fail('server-hang', f'the server was still running at {run.sim.now / NS:.0f}s; recorded exceptions: '
                     f'{tracebacks(run)[:3]}')
            return
    elif server.killed_by == 'exit' and server.exit_code == 0:
        all_complete(run, 'server')
    for name, p in procs.items():
        if meta['lost'] == 'reset':
            if name not in hit:
                continue
            since = hit[name]
        elif gone is None or connected.get(name, gone) >= gone:       # (it never knew this server)
            continue
        else:
            since = gone
        run.nontrivial = True
        mine = max([0] + [r['end'] if r['end'] is not None else run.sim.now for r in run.ledger if r['client'] == name])
        if not p.dead:
            if run.sim.now > max(since, mine) + late:
                run.fail('hang', f'{name} was still running at {run.sim.now / NS:.0f}s, the server was lost at {as_s(since)}; '
                         f'recorded exceptions: {tracebacks(run)[:3]}')
                return
        elif p.exit_time > max(since, mine) + late:
            run.fail('late', f'{name} ended at {as_s(p.exit_time)}; the server was lost at {as_s(since)}, the last of its '
                     f'tasks was done at {as_s(mine)}')
            return
        if p.dead and p.killed_by == 'exit' and p.exit_code == 0:
            kept = [x for x in took.get(name, ()) if x not in back.get(name, ())]
            if kept:
                run.fail('silent', f'{name} ended with status 0 and did not return {len(kept)} of the tasks it had taken')
                return
        elif p.dead and p.killed_by == 'crash':
            run.fail('crash', f'{name}: {p.crash_text}')
            return
    if meta['lost'] in ('db', 'disk') and server.dead:
        run.nontrivial = True
    if meta['again'] and server.dead:
        p = run.procs.get('server2')
        if p is None or p.started is None:
            return
        if not p.dead:
            h = history(run)
            if h.rows and any(r['completion_time'] is None for r in h.rows.values()) and run.sim.now - p.started > 400 * NS:
                run.fail('restart-hang', f'the restarted server was still running at {run.sim.now / NS:.0f}s; recorded '
                         f'exceptions: {tracebacks(run)[:3]}')
            return
        if p.exit_code != 0:
            run.fail('restart', f'the restarted server ended with status {p.exit_code}: {p.stderr.text()[-300:]!r}')
            return
        all_complete(run, 'server2')
