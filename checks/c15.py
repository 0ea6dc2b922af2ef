"""C15: every run comes to an end."""

from .common import *

RULE = ('a run counts when the server and at least one client were started and a task was executed; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database', 'a working client remains until the end',
               'the bound is the horizon of 1500 simulated seconds for work that takes at most about 150']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng)
    n = rng.randint(1, 16)
    lines = b.tasks(n, fail=rng.choice([0, 0.4]), dur=rng.choice([(0, 0.3), (0, 3.0)]), seq=rng.choice([0, 0.3]))
    kind = rng.choice(['plain', 'plain', 'late', 'crash', 'crash', 'leave', 'stall', 'nodb', 'cluster'])
    retries = rng.choice([0, 0, 2])
    if kind == 'cluster':
        src = b.file('tasks.txt', lines) if rng.random() < 0.6 else '-'
        kw = {'stdin': b.feed(lines, gap=(0, 1))} if src == '-' else {}
        db = [] if rng.random() < 0.7 else ['--no-db']
        b.proc('server', ['hs', 'cluster', src, '-N', str(rng.choice([1, 2, 4])), '-b', str(rng.choice([1, 3])),
                          '-w', str(rng.choice([1, 3])), '-r', str(retries), '-p', PORT, *db], **kw)
        return b.done(kind=kind, failed=[], attempts=retries + 1)
    if kind == 'nodb':
        names = service(b, lines, mode=rng.choice(['file', 'stdin']), server_args=['--no-db'])
        return b.done(kind=kind, failed=[])
    evict = rng.choice([10, 20]) if kind in ('crash', 'stall') else rng.choice([20, 100, 600])
    names = service(b, lines, retries=retries, evict=evict, heartrate=rng.choice([1, 2]),
                    noconfirm=0.0 if kind in ('crash', 'stall') else 0.1)
    failed = []
    if kind == 'late':
        for p in b.sc['procs']:
            if p['name'] in names[1:]:
                p['delay'] = round(rng.uniform(3, 25), 2)
    elif kind in ('crash', 'stall'):
        # one more client that always works; the others may fail
        b.client(N=2, b=1, w=1, name='steady')
        for nm in names:
            if rng.random() < 0.7:
                failed.append(nm)
                when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.6 else {'at': round(rng.uniform(2, 30), 2)}
                if kind == 'crash':
                    b.fault(do='sigkill', proc=nm, **when)
                else:
                    b.fault(do='freeze', proc=nm, **{'for': round(rng.choice([3, 15, 40]), 1)}, **when)
    elif kind == 'leave':
        b.client(N=2, b=1, w=1, name='steady')
        for nm in names:
            if rng.random() < 0.8:
                b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGUSR2']), proc=nm, at=round(rng.uniform(3, 20), 2))
    b.sc['optional_procs'] = names
    return b.done(kind=kind, failed=failed)


def without_delay(run):
    """Where no client fails the server does not wait for any client that is gone."""
    server = run.procs['server']
    if not server.dead or server.killed_by != 'exit' or server.exit_code != 0:
        return
    last = max([0] + [r['end'] for r in run.ledger if r['end'] is not None]
               + [p.exit_time for n, p in run.procs.items() if n in ('steady', *run.scenario['meta'].get('clients', ())) and p.dead]
               + [t for seq, t, kind, proc, d in run.events if kind in ('stdin-eof', 'proc-start')])
    late = (server.exit_time - last) / NS
    run.sim.fired['end-after-ms'] = max(run.sim.fired.get('end-after-ms', 0), int(late * 1000))
    if late > 30 + 2 * slack(run.scenario):
        run.fail('late-end', f'the server ended {late:.1f}s after its last client was gone and the last task was done '
                 f'(at {as_s(last)})', server.exit_time)


def judge(run):
    meta = run.scenario['meta']
    run.nontrivial = len(run.ledger) >= 1
    ok = set(meta['failed'])
    names = [n for n in ['server', 'steady', *meta['clients']] if n in run.procs and n not in ok]
    for n in ok:
        if n in run.procs and not run.procs[n].dead:
            names.append(n)          # stalled clients must end as well
    ended(run, dict.fromkeys(names), crash_ok=ok)
    if meta['kind'] not in ('crash', 'stall'):
        without_delay(run)
        for name, text in tracebacks(run):
            if not any(refused_late(run, p) for p in run.procs.values()):
                run.fail('traceback', f'{name}: {text}')
                break
