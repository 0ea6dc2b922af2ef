"""C06: silent clients are evicted, their tasks rescheduled, live ones kept."""

from .common import *

RULE = ('a run counts when a client registered and a fault (stall, crash, partition, clock change, suspended server) '
        'occurred or a client left; distinct means a different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database', 'clocks may differ or jump on any host; monotonic clocks do not']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    evict = rng.choice([10, 10, 20, 30])
    rate = rng.choice([1, 2, 2, 5])
    lines = b.tasks(rng.randint(1, 16), fail=rng.choice([0, 0.2]), dur=rng.choice([(0, 2), (1, 10), (5, 25)]))
    b.env(SERVER_EVICT=evict, CLIENT_HEARTRATE=rate, SERVER_QUEUESIZE=rng.choice([1, 1, 2]))
    nc = ['--no-confirm'] if rng.random() < 0.1 else []
    b.server(b.file('tasks.txt', lines), '-b', rng.choice([1, 1, 2, 4]), '-w', 1, '-H', '0.0.0.0', *nc)
    names, skew = [], {}
    for k in range(rng.randint(1, 4)):
        names.append(b.client(*nc, N=rng.choice([1, 2, 3]), b=rng.choice([1, 2]), w=1, host=f'h{k + 1}',
                              server_host='h0')['name'])
        if rng.random() < 0.25:
            skew[f'h{k + 1}'] = rng.choice([-3600, -40, -12, 12, 40, 3600, 86400])
    if rng.random() < 0.8:
        b.client(*nc, N=2, b=1, w=1, name='steady', host='hs', server_host='h0', delay=rng.choice([0.1, 5, 45]))
    if skew:
        b.sc['skew'] = skew
    for k, nm in enumerate(names):
        if rng.random() < 0.25:
            continue
        when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.4 else {'at': round(rng.uniform(2, 30), 2)}
        what = rng.choice(['freeze', 'freeze', 'sigkill', 'partition', 'crash-host', 'leave', 'jump', 'reset'])
        span = round(rng.choice([evict * 0.5, evict * 0.9, evict * 1.3, evict * 1.7, evict * 3]), 1)
        if what == 'freeze':
            b.fault(do='freeze', proc=nm, **{'for': span}, **when)
        elif what in ('sigkill', 'reset'):
            b.fault(do=what, proc=nm, **when)
        elif what == 'partition':
            b.fault(do='partition', host=f'h{k + 1}', at=round(rng.uniform(3, 25), 2), **{'for': span})
        elif what == 'crash-host':
            b.fault(do='crash-host', host=f'h{k + 1}', at=round(rng.uniform(3, 25), 2))
        elif what == 'leave':
            b.fault(do='signal', sig=rng.choice(['SIGUSR1', 'SIGUSR2']), proc=nm, **when)
        else:
            b.fault(do='jump', host=rng.choice(['h0', f'h{k + 1}']), by=rng.choice([-3600, -30, 30, 3600]),
                    at=round(rng.uniform(3, 25), 2))
    if rng.random() < 0.2:
        b.fault(do='freeze', proc='server', at=round(rng.uniform(4, 25), 2),
                **{'for': round(rng.choice([3, evict * 0.8, evict * 1.5, evict * 3]), 1)})
    b.sc['optional_procs'] = names
    return b.done(evict=evict, rate=rate, confirm=not nc, lines=lines)


def frozen(run, name='server'):
    """Intervals during which a process was suspended."""
    out, since = [], None
    for seq, t, kind, proc, data in run.events:
        if proc == name and kind == 'freeze':
            since = t
        elif proc == name and kind == 'thaw' and since is not None:
            out.append((since, t))
            since = None
    return out


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    p = run.procs['server']
    evict = meta['evict']
    lag = slack(run.scenario)
    bound = int((evict + max(1, evict // 10) + 4 + lag) * NS)
    pauses = frozen(run)
    over = p.exit_time if p.dead else run.sim.now
    got = {}                            # uuid -> [(seq, t, state)]
    visible = {}                        # uuid -> [(seq, t)] of heartbeats in the pipe and not yet read
    reads = []
    beats_seen = []
    state = {}
    evictions = 0
    for seq, t, kind, proc, data in run.events:
        if kind == 'q-pipe' and data.get('q') == 'heartbeat' and data.get('obj'):
            hb = json.loads(data['obj'])
            visible.setdefault(hb['uuid'], []).append((seq, t))
        elif kind == 'q-get' and data.get('q') == 'heartbeat' and data.get('obj'):
            hb = json.loads(data['obj'])
            if visible.get(hb['uuid']):
                visible[hb['uuid']].pop(0)
            got.setdefault(hb['uuid'], []).append((seq, t, hb['state'], hb['host']))
            reads.append((seq, t))
        elif kind == 'db' and proc == 'server':
            for (table, rid), old, new in data['changes']:
                if table == 'client' and old is not None and new is not None and not old['evicted'] and new['evicted']:
                    evictions += 1
                    since = t - int(evict * NS)
                    last = got.get(rid, [])
                    if last and last[-1][1] > since:
                        run.fail('live-evicted', f'client {rid[:8]} was evicted {(t - last[-1][1]) / NS:.2f}s after its '
                                 f'latest heartbeat had been read (eviction period {evict})', t)
                        return
                    late = [v for v in visible.get(rid, ()) if v[1] > since and reads and v[0] < reads[-1][0]]
                    if late:
                        run.fail('live-evicted', f'client {rid[:8]} was evicted although a heartbeat of {as_s(late[0][1])} '
                                 f'had arrived before the server last read any (eviction period {evict})', t)
                        return
                    beats_seen.append((rid, seq, t))
                elif table == 'task' and old is not None and new is not None:
                    if old['schedule_time'] is not None and new['schedule_time'] is None:
                        reverted(run, meta, h, seq, t, old, beats_seen)
                        if run.violations:
                            return
    run.nontrivial = bool(got) and bool(run.sim.fired)
    run.sim.fired['evictions'] = run.sim.fired.get('evictions', 0) + evictions
    # registration, re-registration, timely eviction, normal departure
    for uuid, lst in got.items():
        changes = h.client_changes.get(uuid, [])
        known = False
        for n, (seq, t, st, host) in enumerate(lst):
            due = t + int((lag + 1) * NS)
            if st == 0:
                if over > due and not near(pauses, t, due):
                    row = row_by(changes, due)
                    if row is None:
                        run.fail('unregistered', f'client {uuid[:8]} was not registered with its heartbeat', t)
                        return
                    nxt = lst[n + 1] if n + 1 < len(lst) else None
                    if (row['evicted'] or row['disconnected_at'] is not None) and (nxt is None or nxt[1] > due) \
                            and not any(u == uuid and t < te <= due for u, _, te in beats_seen):
                        run.fail('not-reregistered', f'client {uuid[:8]} is not connected after its heartbeat of '
                                 f'{as_s(t)} (evicted {row["evicted"]}, disconnected {row["disconnected_at"]})', t)
                        return
                    if row['host'] != host:
                        run.fail('wrong-host', f'client {uuid[:8]} on {host} is recorded on {row["host"]}', t)
                        return
                known = True
            else:
                row = row_by(changes, due)
                if known and row is not None and over > due and not near(pauses, t, due):
                    if row['disconnected_at'] is None:
                        run.fail('not-disconnected', f'client {uuid[:8]} left and is not recorded as disconnected', t)
                        return
                    was = row_by(changes, t - 1)
                    if row['evicted'] and not (was and was['evicted']):
                        run.fail('evicted-leaver', f'client {uuid[:8]} left normally and is recorded as evicted', t)
                        return
        for n, (seq, t, st, host) in enumerate(lst):
            nxt = lst[n + 1][1] if n + 1 < len(lst) else over
            if st == 0 and nxt > t + bound + sum(b - a for a, b in pauses if b > t and a < nxt):
                if not any(u == uuid and t < te <= nxt for u, _, te in beats_seen):
                    run.fail('not-evicted', f'client {uuid[:8]} was silent for {(nxt - t) / NS:.1f}s after its heartbeat '
                             f'of {as_s(t)} and was not evicted (eviction period {evict})', t)
                    return
                te = next(te for u, _, te in beats_seen if u == uuid and te > t)
                if te > t + bound + sum(b - a for a, b in pauses if b > t and a < te):
                    run.fail('late-eviction', f'client {uuid[:8]} was evicted {(te - t) / NS:.1f}s after its last '
                             f'heartbeat (eviction period {evict})', te)
                    return
    # its unfinished confirmed tasks become schedulable again
    if meta['confirm']:
        for uuid, seq, t in beats_seen:
            due = t + int((lag + 2) * NS)
            if over <= due or near(pauses, t, due):
                continue
            for rid in h.task_changes:
                row = state_before(h, rid, seq)
                if row is None or row['client_id'] != uuid or row['completion_time'] is not None \
                        or row['schedule_time'] is None:
                    continue
                after = [c[4] for c in h.task_changes[rid] if c[0] > seq and c[1] <= due]
                if not any(a is None or a['completion_time'] is not None or a['schedule_time'] is None for a in after):
                    run.fail('not-rescheduled', f'{describe(row)} belonged to client {uuid[:8]} evicted at {as_s(t)} and '
                             'was not made schedulable again', t)
                    return
    if server_done(run):
        for uuid, row in h.clients.items():
            if row['disconnected_at'] is None:
                run.fail('not-disconnected', f'client {uuid[:8]} is recorded as connected after the server ended')
                return
    elif not p.dead:
        kind = hang_kind(run)
        if kind == 'hang' and meta['confirm'] and 'steady' in run.procs:
            run.fail('never-evicted', f'the server is still waiting at {as_s(run.sim.now)}')


def near(pauses, a, b):
    return any(x <= b and y >= a for x, y in pauses)


def row_by(changes, t):
    """The client's row at a time."""
    row = None
    for seq, tc, proc, old, new in changes:
        if tc > t:
            break
        row = new
    return row


def reverted(run, meta, h, seq, t, old, evicted):
    if old['completion_time'] is not None:
        run.fail('undone', f'{describe(old)} had completed and was made schedulable again', t)
        return
    if not any(u == old['client_id'] for u, _, te in evicted):
        run.fail('wrong-revert', f"{describe(old)} was taken from client {str(old['client_id'])[:8]}, which was not evicted", t)
