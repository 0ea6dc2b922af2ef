"""C12: overrunning or interrupted tasks are stopped by escalating signals."""

from signal import SIGINT, SIGKILL, SIGTERM

from .common import *

RULE = ('a run counts when a task program was sent at least one signal; distinct means a different order in which threads '
        'were scheduled')
ASSUMPTIONS = ['a program that is sent SIGKILL ends', 'the timeout applies to the program that was started (not to what it '
               'left in the background)']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1500)
    limit = rng.choice([None, 1, 2, 3, 5, 10])
    wait = rng.choice([1, 2, 3, 5, 10])
    n = rng.randint(1, 14)
    lines = []
    for k in range(n):
        base = limit or 5
        d = rng.choice([0, rng.uniform(0, base), base - 0.01, base + 0.01, base + 0.6, base * 2, base + wait, base + 2 * wait + 1,
                        base * 3 + 4 * wait, rng.uniform(0, 4 * base + 3 * wait)])
        spec = {'dur': round(max(0, d), 3), 'exit': rng.choice([0, 0, 0, 1, 3, -11])}
        r = rng.random()
        if r < 0.25:
            spec['ignore'] = [2]
        elif r < 0.5:
            spec['ignore'] = [2, 15]
        elif r < 0.75:
            spec['trap'] = {}
            for s in (2, 15):
                if rng.random() < 0.7:
                    spec['trap'][str(s)] = [round(rng.choice([0.001, 0.4, rng.uniform(0, 2.2 * wait)]), 3),
                                            rng.choice([0, 0, 1, 130, -s])]
        lines.append(b.line(b.token(**spec)))
    retries = rng.choice([0, 0, 0, 1])
    kind = rng.choice(['client', 'client', 'client', 'env', 'cluster'])
    a = (['-W', str(limit)] if limit else []) + (['-S', str(wait)])
    if kind == 'env':
        a = []
        if limit:
            b.env(TASK_TIMEOUT=limit)
        b.env(TASK_SIGNALWAIT=wait)
    if kind == 'cluster':
        b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-N', str(rng.choice([1, 2, 4])), '-b', '2', '-w', '1',
                          '-r', str(retries), '-p', PORT, *a])
        names = ['server']
    else:
        names = service(b, lines, clients=rng.choice([1, 1, 2]), retries=retries, mode='file', client_args=a)
    usr2 = []
    if rng.random() < (0.9 if limit is None else 0.25):
        who = rng.choice(names)
        usr2.append(who)
        when = at_point(rng, who, [('popen', 4), ('popen-done', 4), ('child-wait', 12), ('child-reaped', 4)]) \
            if rng.random() < 0.5 else {'at': round(rng.uniform(2, 20), 2)}
        b.fault(do='signal', sig='SIGUSR2', proc=who, **when)
    if usr2 and kind != 'cluster':
        b.client(*a, N=2, b=1, w=1, name='steady', delay=rng.choice([0.1, 10]))
    if rng.random() < 0.2:
        b.fault(do='jump', host='h0', by=rng.choice([-86400, -60, -5, 5, 60, 86400]), at=round(rng.uniform(2, 20), 2))
    return b.done(limit=limit, wait=wait, attempts=retries + 1, names=names, kind=kind)


def lateness(sc):
    """Seconds by which an action may be observed late or early because threads are slow (no margin)."""
    k = sc['knobs']
    s = 0.05
    if k.get('preempt') and k.get('nap_p'):
        s += 3 * k.get('nap_max', 0.5)
    return s


def escalation(run, W, S, usr2, only=None):
    """Signals sent to the programs of tasks."""
    lag = lateness(run.scenario)
    late = 1.1 + 2 * lag
    for r in run.ledger:
        if r['token'] is None or only is not None and r['client'] not in only:
            continue
        what = f"{r['command'][:60]!r} (started {as_s(r['start'])} by {r['client']})"
        sig = [(t, s) for t, s in r['signals']]
        if sig:
            run.nontrivial = True
        p = run.procs[r['client']]
        end = min(r['end'] if r['end'] is not None else run.sim.now, p.exit_time if p.dead else run.sim.now)
        kinds = [s for t, s in sig]
        if kinds != [int(SIGINT), int(SIGTERM), int(SIGKILL)][:len(kinds)]:
            run.fail('sequence', f'{what} was sent signals {kinds}')
            return False
        due = []
        if W is not None:
            due.append(r['start'] + W * NS)
        if r['client'] in usr2:
            due.append(max(usr2[r['client']], r['start']))
        if not due:
            if sig:
                run.fail('unprovoked', f'{what} was sent signal {kinds[0]} at {as_s(sig[0][0])}, no limit applies', sig[0][0])
                return False
            continue
        first = min(due)
        if sig and sig[0][0] < first - int(0.01 * NS):
            run.fail('early', f'{what} was sent SIGINT at {as_s(sig[0][0])}, {(first - sig[0][0]) / NS:.3f}s before it was due '
                     f'(limit {W}s)', sig[0][0])
            return False
        steps = [('SIGINT', first, late)]
        if len(sig) >= 1:
            steps.append(('SIGTERM', sig[0][0] + S * NS, late))
        if len(sig) >= 2:
            steps.append(('SIGKILL', sig[0][0] + 2 * S * NS, late))
        for k, (name, at, tol) in enumerate(steps):
            sent = sig[k][0] if k < len(sig) else None
            if k and sent is not None and sent < at - int(lag * NS):
                run.fail('escalation', f'{what} was sent {name} at {as_s(sent)}, {(sent - sig[0][0]) / NS:.2f}s after SIGINT; '
                         f'the signal wait is {S}s', sent)
                return False
            if (sent is None and end > at + int(tol * NS)) or (sent is not None and sent > at + int(tol * NS)):
                run.fail('not-stopped', f'{what} was due for {name} at {as_s(at)}, sent at {as_s(sent)}, ended {as_s(r["end"])}',
                         at)
                return False
    return True


def judge(run):
    meta = run.scenario['meta']
    W, S = meta['limit'], meta['wait']
    usr2 = {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'signal' and data.get('sig') in ('SIGUSR2', 12):
            usr2.setdefault(proc, t)
    if not escalation(run, W, S, usr2):
        return
    run.exact_times = not any(f['do'] == 'jump' for f in run.scenario['faults'])
    records_true(run)
    data_unchanged(run)
    if meta['kind'] == 'cluster' and 'server' in usr2:
        ended(run, ['server'])
        return
    names = ['server', 'steady', *[n for n in meta['names'] if n != 'server']]
    ended(run, [n for n in names if not (n in run.procs and run.procs[n].killed_by in ('signal 12',))])
    all_complete(run)
    links(run, meta['attempts'])
