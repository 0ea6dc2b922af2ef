"""C01: no submitted task is lost when clients fail."""

from .common import *

RULE = ('a run counts when at least one fault hit a client or its network and a task was executed; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database', 'one client works throughout',
               'tasks taken by a client that died before its confirmation reached the server are outside the property']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def client_faults(b, rng, names, hosts):
    """Failures of the named clients; returns those that may die."""
    failed = set()
    kind = rng.choice(['crash', 'crash', 'stall', 'leave', 'net', 'mixed'])
    for k, nm in enumerate(names):
        if rng.random() > 0.75:
            continue
        what = kind if kind != 'mixed' else rng.choice(['crash', 'stall', 'leave', 'net'])
        when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.55 else {'at': round(rng.uniform(2, 30), 2)}
        if what == 'crash':
            failed.add(nm)
            b.fault(do='sigkill', proc=nm, **when)
        elif what == 'stall':
            failed.add(nm)
            b.fault(do='freeze', proc=nm, **{'for': round(rng.choice([3, 15, 30, 60]), 1)}, **when)
        elif what == 'leave':
            b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGUSR2']), proc=nm, **when)
        elif hosts and rng.random() < 0.6:
            failed.add(nm)
            b.fault(do='partition', host=f'h{k + 1}', at=round(rng.uniform(3, 25), 2),
                    **{'for': round(rng.choice([2, 10, 30, 90]), 1)})
        elif hosts and rng.random() < 0.5:
            failed.add(nm)
            b.fault(do='crash-host', host=f'h{k + 1}', at=round(rng.uniform(3, 25), 2))
        else:
            failed.add(nm)
            b.fault(do='reset', proc=nm, **when)
    return kind, failed


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    n = rng.randint(1, 20)
    lines = b.tasks(n, fail=rng.choice([0, 0, 0.3]), dur=rng.choice([(0, 0.3), (0, 3.0), (1, 10)]),
                    seq=rng.choice([0, 0.3]))
    hosts = rng.random() < 0.5
    slow = rng.random() < 0.2
    names = service(b, lines, retries=rng.choice([0, 0, 2]), evict=rng.choice([10, 20]), heartrate=rng.choice([1, 2]),
                    hosts=hosts, timeout=rng.choice([0, 0.3]), mode='stdin' if slow else None,
                    executors=rng.choice([None, None, 1, 8]), clients=rng.choice([1, 2, 3, 4]))
    if slow:
        for p in b.sc['procs']:
            if p['name'] == 'server':
                p['stdin'] = b.feed(lines, gap=(0, 15.0), burst=0.5)
    b.client(N=rng.choice([1, 2, 4]), b=rng.choice([1, 3]), w=1, name='steady', server_host='h0' if hosts else None,
             **({'host': 'hs'} if hosts else {}), **({'delay': 40} if rng.random() < 0.3 else {}))
    kind, failed = client_faults(b, rng, names, hosts)
    b.sc['optional_procs'] = names
    return b.done(kind=kind, failed=sorted(failed), lines=lines)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    run.nontrivial = bool(run.sim.fired) and len(run.ledger) >= 1
    p = run.procs['server']
    if server_done(run):
        all_complete(run)
        lines_preserved(run, meta['lines'])
    elif p.dead:
        run.fail('server-failed', f'the server ended with {p.exit_code} ({p.killed_by}): {p.stderr.text()[-400:]!r}')
    elif hang_kind(run) != 'hang-unconfirmed':
        open_ = [r for r in h.rows.values() if r['completion_time'] is None]
        if open_ or len(h.roots()) < len(meta['lines']):
            r = open_[0] if open_ else None
            run.fail('never-run', f'{len(open_)} tasks are still not complete at {run.sim.now / NS:.0f}s although a '
                     f'client is working: {describe(r) if r else "not even stored"} scheduled at '
                     f"{r and r['schedule_time']}, client {r and r['client_id']}")
    records_true(run)
    confirmed_first(run, h)


def confirmed_first(run, h):
    """A client starts no task before the server has been told that it has it."""
    told = {}
    started = {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'rpc-ok' and data.get('q') == 'confirmed' and data.get('m') == 'put':
            for rid in carried(data.get('obj')):
                told.setdefault((proc, rid), t)
        elif kind == 'exec':
            started[data['n']] = seq
    for r in run.ledger:
        rid = r['env'].get('TASK_ID')
        t = told.get((r['client'], rid))
        if t is None or t > r['start']:
            run.fail('unconfirmed-start', f"{r['client']} started {r['command']!r} at {as_s(r['start'])} before it "
                     f'confirmed it (confirmed: {as_s(t)})')
            return
