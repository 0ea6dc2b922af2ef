"""C16: cancel, revert, delete and tag edits take effect exactly as asked."""

import re

from .common import *

RULE = ('a run counts when an edit changed at least one task; distinct means a different order in which threads were '
        'scheduled')
ASSUMPTIONS = ['clients and servers do not fail in these runs', 'a task that is reverted, cancelled or deleted while a client '
               'holds it may still finish there']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}

SITES = ['a', 'b', 'us-west.1', '7', 'true']
NAMES = ['site', 'extra', 'x.y', 'z-1', 'n']


def conditions(rng, lines):
    """Command-line filters and their meaning."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        r = rng.random()
        if r < 0.3:
            out.append(['alias', rng.choice('FSCRRRC')])
        elif r < 0.5:
            name = rng.choice(NAMES[:3])
            out.append(['tag', name, rng.choice([None, None, None, 'null'])])
        elif r < 0.7:
            out.append(['tag', 'site', rng.choice(SITES)])
        elif r < 0.85:
            out.append(['re', rng.choice(['@t[0-4]@', 'run', '@t1', '7@', '^run @t[02468]@$'])])
        elif r < 0.95:
            out.append(['args', rng.choice(lines)])
        else:
            out.append(['attempt', rng.choice([1, 2])])
    return out


def cond_args(conds):
    where, tags, flags, seen = [], [], [], set()
    for c in conds:
        if c[0] == 'alias' and 'alias' in seen:
            continue                          # mutually exclusive
        seen.add(c[0])
        if c[0] == 'alias':
            flags.append(f'-{c[1]}')
        elif c[0] == 'tag':
            tags.append(c[1] if c[2] is None else f'{c[1]}:{c[2]}')
        elif c[0] == 're':
            where.append(f'args ~ {c[1]}')
        elif c[0] == 'args':
            where.append(f'args == {c[1]}')
        else:
            where.append(f'attempt == {c[1]}')
    return flags + (['-w', *where] if where else []) + (['-t', *tags] if tags else [])


def coerce(text):
    low = text.lower()
    if low in ('true', 'false'):
        return low == 'true'
    if low in ('null', 'none'):
        return None
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return text


def matches(row, conds):
    seen_alias = False
    wanted_tags = {}
    for c in conds:
        if c[0] == 'alias':
            if seen_alias:
                continue
            seen_alias = True
            s = row['exit_status']
            if not {'F': s is not None and s != 0, 'S': s == 0, 'C': s is not None, 'R': s is None}[c[1]]:
                return False
        elif c[0] == 'tag':
            wanted_tags[c[1]] = c[2]        # the same name twice: the last one counts
        elif c[0] == 're' and not re.search(c[1], row['args']):
            return False
        elif c[0] == 'args' and row['args'] != c[1].strip():
            return False
        elif c[0] == 'attempt' and row['attempt'] != c[1]:
            return False
    tag = json.loads(row['tag'])
    for name, value in wanted_tags.items():
        if value is not None and coerce(value) is None:
            if name not in tag or tag[name] is not None:
                return False
        elif tag.get(name) is None or value is not None and tag[name] != coerce(value):
            return False                     # without a value: any value but null
    return True


def edit(b, rng, lines, phase):
    """One use of the update command: its arguments and what they ask for."""
    e = {'conds': conditions(rng, lines), 'fields': {}, 'tags': {}, 'remove': [], 'mode': None}
    r = rng.random()
    if r < 0.35:
        e['mode'] = 'cancel'
        if rng.random() < 0.6:
            e['conds'] = [['alias', 'R'], *[c for c in e['conds'] if c[0] != 'alias']]
    elif r < 0.55:
        e['mode'] = 'revert'
        if rng.random() < 0.8:
            e['conds'] = [['alias', rng.choice('CFS')], *[c for c in e['conds'] if c[0] != 'alias']]
    elif r < 0.75:
        e['mode'] = 'delete'
        if not e['conds']:
            e['conds'] = [['tag', 'site', 'a']]
    if e['mode'] != 'delete' and (e['mode'] is None or rng.random() < 0.3):
        if rng.random() < 0.4:
            e['fields']['args'] = 'edited ' + b.line(b.token(dur=round(rng.uniform(0, 2), 3), exit=rng.choice([0, 0, 1])), 0)
        if rng.random() < 0.3:
            e['fields']['submit_host'] = rng.choice(['007', '1e3', '12', 'True', 'a=b', 'h:1', 'some host', '2024-01-01'])
        if rng.random() < 0.6 or not e['fields']:
            for _ in range(rng.choice([1, 1, 2])):
                e['tags'][rng.choice(NAMES)] = rng.choice([*SITES, '1.5', 'null'])
        if rng.random() < 0.4:
            e['remove'] = [x for x in {rng.choice(NAMES), rng.choice(NAMES)} if x not in e['tags']]
            e['remove'].sort()
    argv = ['hs', rng.choice(['task']), 'update', *[f'{k}={v}' for k, v in e['fields'].items()],
            *[f'{k}:{v}' for k, v in e['tags'].items()]]
    if e['mode']:
        argv.append(f'--{e["mode"]}')
    argv += cond_args(e['conds'])
    if e['remove']:
        argv += ['--remove-tag', *e['remove']]
    if rng.random() < 0.25:
        e['limit'] = rng.choice([1, 2, 5])
        argv += ['--limit', str(e['limit'])]
        if rng.random() < 0.6:
            e['order'] = rng.choice(['submit_time', 'args'])
            argv += ['--order-by', e['order']]
            if rng.random() < 0.5:
                e['desc'] = True
                argv.append('--desc')
    kw = {}
    r = rng.random()
    if r < 0.85:
        argv.append('--no-confirm')
    else:
        e['answer'] = rng.choice(['yes', 'y', 'YES', 'no', '', 'maybe'])
        kw['stdin'] = [[rng.choice([0.5, 3]), e['answer'] + '\n'], [100, '']]
    return e, argv, kw


def generate(rng, i, tier):
    b = Builder(rng, horizon=1500)
    n = rng.randint(3, 24)
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.3), (0, 3), (1, 5)]), weird=0)
    rest, last = list(lines), None
    for k in range(rng.choice([1, 2, 3])):
        part, rest = rest[:n // 2 + 1], rest[n // 2 + 1:]
        if not part:
            break
        argv = ['hs', 'submit', b.file(f'tasks{k}.txt', part), '-b', str(rng.choice([4, 50]))]
        tags = {'site': rng.choice(SITES)}
        if rng.random() < 0.5:
            tags[rng.choice(NAMES)] = rng.choice(['', 'yes'])
        argv += ['--tag', *[f'{t}:{v}' if v else t for t, v in tags.items()]]
        b.proc(f'submit{k}', argv, **({'after': last, 'delay': 0.2} if last else {}))
        last = f'submit{k}'
    lines = [ln for k in range(3) for ln in b.sc['files'].get(f'tasks{k}.txt', '').splitlines()]
    edits = {}

    def add(phase, **kw):
        name = f'edit{len(edits) + 1}'
        e, argv, more = edit(b, rng, lines, phase)
        edits[name] = e
        b.proc(name, argv, **kw, **more)
        return name
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        last = add('before', after=last, delay=rng.choice([0.1, 1]))
    retries = rng.choice([0, 0, 1, 2])
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 2, 4]), SERVER_EVICT=600, CLIENT_HEARTRATE=rng.choice([1, 2]))
    args = ['-b', rng.choice([1, 1, 2, 4, 8]), '-w', 1, '-r', retries]
    if retries and rng.random() < 0.3:
        args.append('--eager')
    b.server('--restart', *args, after=last, delay=1)
    for k in range(rng.choice([1, 1, 2, 3])):
        b.client(*rng.choice([[], ['--capture']]), N=rng.choice([1, 1, 2, 4]), b=rng.choice([1, 1, 2, 4]), w=1)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6:
            add('during', upon=['server', rng.choice(['listen', 'db', 'db', 'q-pipe']), rng.randint(1, 8)],
                delay=round(rng.choice([0.001, rng.uniform(0, 0.3), rng.uniform(0, 3)]), 4))
        else:
            add('during', upon=['server', 'listen', 1], delay=round(rng.uniform(0, 15), 3))
    if rng.random() < 0.5:
        last = 'server'
        for _ in range(rng.choice([0, 1, 1, 2])):
            last = add('after', after=last, delay=rng.choice([0.5, 3]))
        b.server('--restart', *args, after=last, delay=8, name='server2')
        b.client(N=2, b=1, w=1, name='late', upon=['server2', 'listen', 1], delay=0.5)
        b.meta['clients'].remove('late')
    b.sc['optional_procs'] = ['late', 'server2', *b.meta['clients'][1:]]
    return b.done(edits=edits, attempts=retries + 1)


def wanted(e, row):
    """The row as the edit should leave it; the schedule time of a cancelled task is checked separately."""
    new = dict(row)
    if e['mode'] == 'delete':
        return None
    tag = json.loads(row['tag'])
    for k, v in e['tags'].items():
        tag[k] = coerce(v)
    for k in e['remove']:
        tag.pop(k, None)
    new['tag'] = tag
    for k, v in e['fields'].items():
        new[k] = v
    if e['mode'] == 'cancel':
        new['exit_status'] = -1
        new['schedule_time'] = '*'
    if e['mode'] == 'revert':
        for k in ('schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time',
                  'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration'):
            new[k] = None
    return new


def same(want, new):
    if want is None or new is None:
        return None if want is new else 'row'
    for k, v in want.items():
        got = new[k]
        if k == 'tag':
            got = json.loads(got)
            if json.dumps(got, sort_keys=True) != json.dumps(v, sort_keys=True):
                return k
        elif v == '*':
            if got is None:
                return k
        elif got != v:
            return k
    return None


def effects(run):
    """Each edit changed exactly the rows it names, in the way it names."""
    edits = run.scenario['meta']['edits']
    table = {}
    started = {}
    commits = {}
    snaps = {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'proc-start' and proc in edits:
            started[proc] = t
            snaps[proc] = [dict(table)]
        if kind == 'proc-end' and proc in edits:
            snaps.setdefault(proc, []).append(dict(table))
        if kind != 'db':
            continue
        tasks = [(rid, old, new) for (tb, rid), old, new in data['changes'] if tb == 'task']
        if proc in edits:
            e = edits[proc]
            commits[proc] = commits.get(proc, 0) + 1
            if commits[proc] > 1:
                run.fail('partial', f'{proc} changed the database in several steps: {run.procs[proc].argv[3:]}', t)
                return
            match = {rid: row for rid, row in table.items() if matches(row, e['conds'])}
            changed = {rid: (old, new) for rid, old, new in tasks}
            what = f'{proc} {" ".join(run.procs[proc].argv[3:])!r}'
            if e.get('answer', 'yes').lower() not in ('yes', 'y'):
                run.fail('unconfirmed', f'{what} changed {len(changed)} tasks, the answer was {e["answer"]!r}', t)
                return
            for rid, (old, new) in changed.items():
                if rid not in match:
                    run.fail('wrong-task', f'{what} changed {describe(old or new)} which does not match', t)
                    return
                bad = same(wanted(e, old), new)
                if bad:
                    run.fail('wrong-change', f'{what}: {bad} of {describe(old)} was {old.get(bad)!r}, is '
                             f'{None if new is None else new.get(bad)!r}', t)
                    return
            if e.get('limit') is None:
                for rid, row in match.items():
                    if rid not in changed and same(wanted(e, row), row):
                        run.fail('missed', f'{what} did not change {describe(row)}', t)
                        return
            else:
                first = snaps[proc][0]
                if len(changed) > e['limit']:
                    run.fail('limit', f'{what} changed {len(changed)} tasks', t)
                    return
                quiet = first == table
                todo = list(match.values())
                if quiet and e.get('order'):
                    todo.sort(key=lambda r: r[e['order']], reverse=bool(e.get('desc')))
                    keys = {r[e['order']] for r in todo[:e['limit']]}
                    for rid in changed:
                        if table[rid][e['order']] not in keys:
                            run.fail('order', f'{what} changed {describe(table[rid])}', t)
                            return
                if quiet and sum(1 for r in todo if same(wanted(e, r), r)) >= e['limit'] > len(changed) and \
                        not any(not same(wanted(e, r), r) for r in todo):
                    run.fail('missed', f'{what} changed {len(changed)} of {len(match)} tasks', t)
                    return
        for rid, old, new in tasks:
            if new is None:
                table.pop(rid, None)
            else:
                table[rid] = new
    for name, e in edits.items():
        p = run.procs.get(name)
        if p is None or p.started is None or not p.dead:
            continue
        if commits.get(name) or e.get('answer', 'yes').lower() not in ('yes', 'y'):
            continue
        def due(rows):
            match = [r for r in rows.values() if matches(r, e['conds'])]
            todo = [r for r in match if same(wanted(e, r), r)]
            return todo and (e.get('limit') is None or len(todo) == len(match))
        if p.exit_code == 0 and all(due(s) for s in snaps[name]):
            run.fail('no-effect', f'{name} {" ".join(p.argv[3:])!r} changed nothing')
            return
    if commits:
        run.nontrivial = True


def consequences(run):
    """What the servers and clients made of the edited tasks."""
    h = history(run)
    edits = run.scenario['meta']['edits']
    done = {s: server_done(run, s) for s in ('server', 'server2') if s in run.procs}
    final_server = 'server2' if 'server2' in run.procs else 'server'
    for rid, lst in h.task_changes.items():
        cancelled = deleted = reverted = None
        expect = 0
        args_at = []
        flight = False                  # edited while a client may hold it
        for seq, t, proc, old, new in lst:
            row = new or old
            if proc in edits:
                e = edits[proc]
                cancelled = deleted = None
                if old is not None and old['schedule_time'] is not None and old['completion_time'] is None \
                        and (new is None or e['mode']):
                    flight = True
                if new is None:
                    deleted = t
                    loose = old['schedule_time'] is None
                elif e['mode'] == 'cancel' and old['schedule_time'] is None and not flight:
                    cancelled = t
                elif e['mode'] == 'revert' and new['schedule_time'] is None and old['completion_time'] is not None:
                    reverted = t
                if new is not None and new['schedule_time'] is not None and e['mode'] == 'cancel':
                    reverted = None
                if args_at and new is not None and old is not None and new['args'] != old['args'] \
                        and new['schedule_time'] is not None:
                    args_at.append((t, new['args']))     # just scheduled: may be read again before it is handed out
                continue
            if deleted is not None:
                run.fail('undeleted', f'{describe(row)} was deleted at {as_s(deleted)} and is back', t)
                return
            if cancelled is not None and proc in done:
                run.fail('uncancelled', f'{describe(row)} was cancelled at {as_s(cancelled)} and then changed by {proc}: '
                         f'{ {k: (old[k], new[k]) for k in new if old and old[k] != new[k]} }', t)
                return
            if proc in done and old is not None and old['schedule_time'] is None and new is not None \
                    and new['schedule_time'] is not None and new['completion_time'] is None:
                expect += 1
                reverted = None
                args_at.append((t, new['args']))
            if proc in done and old is None:          # a retry: stored already scheduled or scheduled right after
                prev = h.task_changes.get(new['previous_id'])
                if new['schedule_time'] is not None:
                    expect += 1
                    args_at.append((t, new['args']))
                if prev is not None:
                    before = None
                    for s2, t2, p2, o2, n2 in prev:
                        if s2 >= seq:
                            break
                        before = (t2, p2, o2, n2)
                    if before and before[1] in edits and before[3] is not None and edits[before[1]]['mode'] == 'cancel' \
                            and before[2]['schedule_time'] is None:
                        run.fail('cancelled-retried', f'{describe(new)} retries a task cancelled at {as_s(before[0])}', t)
                        return
        runs = h.execs.get(rid, ())
        row = lst[-1][4] or lst[-1][3]
        if cancelled is not None:
            late = [r for r in runs if r['start'] > cancelled]
            if late:
                run.fail('cancelled-executed', f'{describe(row)} was cancelled at {as_s(cancelled)} before it was scheduled and '
                         f'executed at {as_s(late[0]["start"])}', late[0]['start'])
                return
        if deleted is not None and loose:
            late = [r for r in runs if r['start'] > deleted]
            if late:
                run.fail('deleted-executed', f'{describe(row)} was deleted at {as_s(deleted)} before it was scheduled and '
                         f'executed at {as_s(late[0]["start"])}', late[0]['start'])
                return
        if reverted is not None and deleted is None and done.get(final_server) and run.procs[final_server].exit_time > reverted \
                and run.procs[final_server].started < reverted - int(slack(run.scenario) * NS):
            pass                                      # may have come too late for a server about to end
        if reverted is not None and deleted is None and done.get(final_server) and run.procs[final_server].started > reverted:
            run.fail('not-again', f'{describe(row)} was reverted at {as_s(reverted)} and not executed again', reverted)
            return
        launched = [r for r in runs]
        if done.get(final_server) and deleted is None and (
                len(launched) > expect or len(launched) < expect and not flight):
            run.fail('not-once', f'{describe(row)} was scheduled {expect} times and executed {len(launched)} times')
            return
        for r in launched:
            given = [a for t, a in args_at if t <= r['start']]
            if given and r['command'] not in given:
                run.fail('stale', f'{describe(row)} ran as {r["command"]!r}, scheduled as {given[-1]!r}', r['start'])
                return


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    edits = meta['edits']
    for name, e in edits.items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        if not p.dead:
            run.fail('edit-hangs', f'{name} {" ".join(p.argv[3:])!r} did not end')
            return
        if p.exit_code != 0 or p.killed_by != 'exit':
            run.fail('edit-fails', f'{name} {" ".join(p.argv[3:])!r} ended with {p.exit_code}: {p.stderr.text()[-300:]!r}')
            return
    effects(run)
    if not run.violations:
        consequences(run)
    data_unchanged(run, editors=set(edits))
    waiting = False
    for s in ('server', 'server2'):
        p = run.procs.get(s)
        if p is not None and p.started is not None:
            waiting = waiting or idle(h, p)
            ended_unless_idle(run, s)
    if not waiting:
        late = [c for c in [*meta['clients'], 'late'] if c in run.procs and run.procs[c].started is not None]
        ended(run, [c for c in late if not refused_late(run, run.procs[c])])
    tracebacks(run)


def idle(h, p):
    """A server that found nothing to schedule waits for new tasks, as does one whose tasks were all deleted."""
    if p.dead:
        return False
    if any(r['exit_status'] is None for r in h.rows.values()):
        return False
    if not h.rows:
        return True
    return not any(proc == p.name and new is not None and new['schedule_time'] is not None
                   for lst in h.task_changes.values() for seq, t, proc, old, new in lst)


def ended_unless_idle(run, name):
    h = history(run)
    p = run.procs[name]
    if idle(h, p):
        return
    ended(run, [name])
    if p.dead and p.exit_code == 0 and p.killed_by == 'exit':
        last = {}
        for rid, lst in h.task_changes.items():
            for seq, t, proc, old, new in lst:
                if t <= p.exit_time:
                    last[rid] = (t, proc, new)
        for rid, (t, proc, new) in last.items():
            if new is not None and new['completion_time'] is not None and new['exit_status'] not in (None, 0) and \
                    new['attempt'] < run.scenario['meta']['attempts'] and not new['retried'] and \
                    not any(proc in run.scenario['meta']['edits'] for seq, t, proc, old, new in h.task_changes[rid]):
                run.fail('not-retried', f'{name} finished at {as_s(p.exit_time)} but {describe(new)} failed and was not retried')
                return
            if new is not None and new['exit_status'] is None and proc not in run.scenario['meta']['edits']:
                run.fail('lost', f'{name} finished at {as_s(p.exit_time)} but {describe(new)} is not complete')
                return
