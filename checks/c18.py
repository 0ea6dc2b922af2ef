"""C18: autoscaling keeps the number of clients within its limits."""

from .common import *

RULE = ('a run counts when the cluster launched a client after its initial ones or had clients end or tasks waiting at its '
        'maximum size; distinct means a different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database and does not fail', 'the launcher starts the client on the host of the server at once',
               'clocks are not changed', 'the initial and the minimum size do not exceed the maximum']
QUICK = {'runs': 900, 'seconds': 65}
THOROUGH = {'runs': 30000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=rng.choice([90, 150]), calm=rng.random() < 0.35)
    if b.sc['knobs'].get('nap_max', 0) > 1:
        b.sc['knobs']['nap_max'] = 1.0
    b.env(SERVER_EVICT=rng.choice([10, 15]), CLIENT_HEARTRATE=rng.choice([1, 2]),
          SERVER_QUEUESIZE=rng.choice([1, 1, 2, 8]))
    policy = rng.choice(['fixed', 'dynamic', 'dynamic', 'dynamic'])
    period = rng.choice([2, 3, 3, 4, 7, 10])
    top = rng.choice([1, 2, 2, 3, 4])
    low = min(top, rng.choice([0, 0, 0, 1, 2, 3]))
    init = min(top, rng.choice([0, 1, 1, 2, 3]))
    factor = rng.choice([0.25, 0.5, 1, 1, 2, 5, 10])
    longest = rng.choice([2, 4, 8])
    lines = b.tasks(rng.choice([0, 3, 10, 30, 60]), fail=rng.choice([0, 0.3]), dur=(rng.choice([0, 1.2]), longest))
    src = rng.choice(['file', 'stdin', 'stdin'])
    argv = ['hs', 'cluster']
    kw = {}
    if src == 'file':
        argv.append(b.file('tasks.txt', lines))
    else:
        argv.append('-')
        kw['stdin'] = b.feed(lines, gap=(0, 4), burst=rng.choice([0.5, 0.95]), close=rng.choice([None, 1]))
    timeout = rng.choice([None, None, 5, 12, 25])
    argv += [*rng.choice([['-A', policy], [f'--autoscaling={policy}'], ['-A', policy.upper()]]),
             '-F', str(factor), '-P', str(period), '-X', str(low), '-Y', str(top), '-I', str(init),
             '-N', str(rng.choice([1, 1, 2, 4])), '-b', str(rng.choice([1, 1, 3])), '-w', str(rng.choice([1, 3])),
             '-r', str(rng.choice([0, 0, 1])), '-p', PORT]
    if timeout is not None:
        argv += ['-T', str(timeout)]
    if rng.random() < 0.2:
        argv += ['--launcher', rng.choice(['srun', 'srun -n 1 -t 01:00:00'])]
    b.meta['servers'].append('server')
    b.proc('server', argv, **kw)
    for k in range(rng.choice([0, 0, 1, 2])):
        more = b.tasks(rng.choice([1, 5, 30]), fail=0.2, dur=(0, longest))
        b.proc(f'submit{k}', ['hs', 'submit', b.file(f'more{k}.txt', more), '-b', str(rng.choice([1, 20]))],
               upon=['server', 'listen', 1], delay=round(rng.uniform(1, 70), 1))
    for k in range(rng.choice([0, 0, 1, 2, 4, 6])):
        name = f'launched{rng.randint(1, 5)}'
        when = at_point(rng, name, CLIENT_POINTS) if rng.random() < 0.4 else {'at': round(rng.uniform(3, 80), 1)}
        r = rng.random()
        if r < 0.6:
            b.fault(do='sigkill', proc=name, **when)
        elif r < 0.8:
            b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGTERM', 'SIGINT']), proc=name, **when)
        else:
            b.fault(do='freeze', proc=name, **{'for': rng.choice([4, 15, 40])}, **when)
    b.sc['optional_procs'] = []
    return b.done(policy=policy, period=period, top=top, low=low, init=init, factor=factor)


# ---- the state of the system over time ------------------------------------------------------------

def load_changes(run):
    """[(t, remaining tasks, rate, average duration)] after every transaction, as the documentation defines them."""
    tasks, clients = {}, {}
    out = [(0, 0, None, None)]
    last = None
    for seq, t, proc, table, rid, old, new in run.changes():
        if last is not None and seq != last:
            out.append((when, *measure(tasks, clients)))
        last, when = seq, t
        d = tasks if table == 'task' else clients
        if new is None:
            d.pop(rid, None)
        else:
            d[rid] = new
    if last is not None:
        out.append((when, *measure(tasks, clients)))
    return out


def measure(tasks, clients):
    remaining = 0
    by, durations = {}, []
    for r in tasks.values():
        if r['completion_time'] is None and r['exit_status'] is None:
            remaining += 1
        c = clients.get(r['client_id'])
        if c is None or c['disconnected_at'] is not None:
            continue
        if r['duration'] is not None:
            durations.append(r['duration'])
        if r['completion_time'] is not None and r['start_time'] is not None:
            n, first, final = by.get(r['client_id'], (0, None, None))
            by[r['client_id']] = (n + 1, r['start_time'] if first is None else min(first, r['start_time']),
                                  r['completion_time'] if final is None else max(final, r['completion_time']))
    rate = 0.0
    for n, first, final in by.values():
        dt = (db_time(final) - db_time(first)) / NS
        if dt > 0:
            rate += n / dt
    avg = sum(durations) / len(durations) if durations else 0
    return remaining, rate or None, avg or None


def bounds(states, factor):
    """(lowest, highest) estimate of the pressure that reading these states in any mixture may give; None if it may be
    unknown (lowest) or is unknown in all (highest)."""
    rem = [s[0] for s in states]
    rate = [s[1] for s in states]
    avg = [s[2] for s in states]
    high = low = None
    if any(rate) and any(avg) and max(rem) > 0:
        high = max(rem) / min(filter(None, rate)) / (factor * min(filter(None, avg)))
    if all(rate) and all(avg) and min(rem) > 0:
        low = min(rem) / max(rate) / (factor * max(avg))
    return low, high


def judge(run):
    meta = run.scenario['meta']
    p = run.procs['server']
    lag = int(slack(run.scenario) * NS)
    end = run.sim.now
    if p.dead:
        run.fail('died', f'the cluster ended by {p.killed_by} with status {p.exit_code}: {p.stderr.text()[-500:]!r}', p.exit_time)
        return
    for name, text in tracebacks(run):
        if name.startswith(('server', 'cluster')) or not name.startswith('launched') and 'clust' in name:
            run.fail('traceback', f'{name}: {text}')
            return
    for proc, thread, e in crashes(run):
        if proc == 'server':
            run.fail('died', f'{thread} of the cluster failed: {e!r}')
            return
    launches = []
    for seq, t, kind, proc, data in run.events:
        if kind == 'launch' and proc == 'server':
            q = run.procs[data['name']]
            launches.append((t, q.exit_time if q.dead else None))
    first = [t for seq, t, kind, proc, data in run.events if kind == 'listen']
    init, low, top, fixed = meta['init'], meta['low'], meta['top'], meta['policy'] == 'fixed'
    begin = p.started + 2 * NS
    for k in range(init):
        if k >= len(launches) and end > begin + 3 * lag:
            run.fail('initial', f'{len(launches)} clients were launched, the initial size is {init}')
            return
        if k < len(launches) and launches[k][0] > begin + 3 * lag:
            run.fail('initial', f'initial client {k + 1} of {init} was launched at {as_s(launches[k][0])}')
            return
    states = load_changes(run)
    period = meta['period'] * NS

    def alive(t):
        """(surely, possibly) running clients as seen shortly before t, not counting a launch at t."""
        sure = [x for x in launches if x[0] < t and (x[1] is None or x[1] > t)]
        may = [x for x in launches if x[0] < t and (x[1] is None or x[1] > t - lag)]
        return len(sure), len(may)

    def during(a, z):
        out = []
        for j, s in enumerate(states):
            if s[0] <= z and (j + 1 == len(states) or states[j + 1][0] >= a):
                out.append(s[1:])
        return out

    steady = launches[init:]
    prev = p.started
    for t, _ in steady:
        if t < prev + period - (lag if prev != p.started else 0):
            run.fail('too-soon', f'client launched at {as_s(t)}, the previous check was no earlier than {as_s(prev)} '
                     f'and the period is {meta["period"]}s', t)
            return
        prev = t
        n = alive(t)[0]
        seen = during(t - lag, t)
        if n < low:
            continue
        if n == 0 and any(s[0] for s in seen):
            continue
        if fixed or n == 0:
            run.fail('needless', f'client launched at {as_s(t)} with {n} running, the minimum is {low} and '
                     f'{max(s[0] for s in seen)} tasks remained', t)
            return
        if n >= top:
            run.fail('above-maximum', f'client launched at {as_s(t)} with {n} already running and a maximum of {top}', t)
            return
        high = bounds(seen, meta['factor'])[1]
        if high is None or high < 0.98:
            run.fail('needless', f'client launched at {as_s(t)} with {n} running and a pressure of '
                     f'{high if high is None else round(high, 3)} (remaining, rate, average: {seen[-1]})', t)
            return
    if steady or any(x[1] is not None for x in launches):
        run.nontrivial = True
    # nothing due may be left undone
    due = period + NS + 2 * lag
    settled = max([begin + 3 * lag, *[t for t, _ in launches[:init]]])
    marks = sorted({settled, end, *[t for t, _ in launches], *[d for _, d in launches if d], *[s[0] for s in states]})
    marks = [m for m in marks if settled <= m <= end]
    for what in ('below-minimum', 'no-client', 'pressure'):
        since, acc = None, []
        for a, z in zip(marks, marks[1:]):
            n = len([x for x in launches if x[0] <= a and (x[1] is None or x[1] > a)])
            state = [s for s in states if s[0] <= a][-1][1:] if what != 'below-minimum' else None
            if what == 'below-minimum':
                bad = n < low
            elif what == 'no-client':
                bad = n == 0 and state[0] > 0
            else:
                bad = not fixed and max(n, 1) < top and all(state)
                acc.append(state)
            if not bad or any(x[0] == a for x in launches):
                since, acc = None, acc[-1:]
            if not bad:
                acc = []
                continue
            if since is None:
                since = a
            if what == 'pressure':
                while acc and (bounds(acc, meta['factor'])[0] or 0) <= 1.02 and since < a:
                    since, acc = a, acc[-1:]
                if (bounds(acc, meta['factor'])[0] or 0) <= 1.02:
                    since, acc = None, []
                    continue
                run.nontrivial = True
            if z - since > due:
                run.fail(what, f'no client was launched between {as_s(since)} and {as_s(z)} (period {meta["period"]}s): {n} '
                         f'running, minimum {low}, maximum {top}, ' + (f'{state[0]} tasks remaining' if state else '')
                         + (f', pressure at least {bounds(acc, meta["factor"])[0]:.2f}' if what == 'pressure' else ''), z)
                return
