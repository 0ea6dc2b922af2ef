"""C17: waiting on or running a task reports its real outcome."""

import shlex

import yaml

from .common import *

RULE = ('a run counts when a command waited for a task that was completed or cancelled while it was waiting; distinct means '
        'a different order in which threads were scheduled')
ASSUMPTIONS = ['commands that fetch captured output run on the host of the client (no file transfer over SSH)',
               'the database does not fail']
QUICK = {'runs': 1200, 'seconds': 65}
THOROUGH = {'runs': 40000, 'seconds': 1200}

MODES = [[], [], ['--status'], ['-s'], ['--return'], ['-r'], ['--info', '--json'], ['-i', '-f', 'yaml'], ['-i', '--yaml'],
         ['--info', '-f', 'json'], ['-i']]


def generate(rng, i, tier):
    b = Builder(rng, horizon=150)
    n = rng.randint(1, 8)
    longest = rng.choice([0.5, 3, 15])
    lines = b.tasks(n, fail=0.4, dur=(0, longest), weird=0.2)
    for s in b.sc['specs'].values():
        speak(rng, s)
    b.env(SERVER_QUEUESIZE=rng.choice([1, 2, 4]), SERVER_EVICT=rng.choice([10, 20]), CLIENT_HEARTRATE=1)
    b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 50]))])
    last = 'submit'
    for k in range(rng.choice([0, 0, 1, 2])):
        last = single(b, rng, f'one{k}', after=last, delay=0.2)
    b.server('--forever', '-b', rng.choice([1, 1, 2, 8]), '-w', 1, '-r', rng.choice([0, 0, 1]), after='submit',
             delay=rng.choice([0.2, 1, 5]))
    capture = rng.random() < 0.7
    for k in range(rng.choice([1, 1, 2, 3])):
        b.client(*(['--capture'] if capture else []), N=rng.choice([1, 1, 2, 4]), b=rng.choice([1, 1, 2]), w=1,
                 delay=rng.choice([0.1, 3, 20]))
    waits = {}
    for k in range(rng.randint(1, 5)):
        name = f'wait{k}'
        mode = rng.choice(MODES)
        sec = rng.choice([1, 1, 2, 5, None, 12])
        r = rng.random()
        which, kw = f'%task:{rng.randint(0, n - 1)}%', {'after': 'submit', 'delay': rng.choice([0.1, rng.uniform(0, 30)])}
        if r < 0.1:
            which = rng.choice(['6f1c7f0e-5d2b-4a51-9d0c-1f8e7a6b5c4d', '%task:0%', '01234567-89ab-cdef-0123-456789abcdef'])
        elif r < 0.2:
            which = rng.choice(['12', 'not-a-task', '6f1c7f0e-5d2b-4a51-9d0c-1f8e7a6b5c4', '', '%task:0%x', 'run'])
        elif r < 0.4 and last != 'submit':
            which, kw['after'] = f'%out:{last}%', last
        waits[name] = {'mode': mode, 'n': sec or 5}
        b.proc(name, ['hs', 'task', 'wait', which, *(['-n', str(sec)] if sec else []), *mode], **kw)
    runs = {}
    for k in range(rng.choice([0, 1, 1, 2])):
        name = f'run{k}'
        line, tags = command(b, rng)
        sec = rng.choice([1, 2, 5, None])
        runs[name] = {'line': line, 'tags': tags, 'n': sec or 5}
        b.proc(name, ['hs', 'task', 'run', *(['-n', str(sec)] if sec else []), *(['-t', *tags] if tags else []), '--',
                      *line.split(' ')], **rng.choice([{'after': 'submit', 'delay': 0.1}, {'upon': ['server', 'listen', 1]},
                                                       {'after': 'submit', 'delay': rng.uniform(0, 20)}]))
    for k in range(rng.choice([0, 0, 0, 1])):
        b.proc(f'cancel{k}', ['hs', 'task', 'update', '--cancel', '-w', f'args == {rng.choice(lines).strip()}', '-R',
                              '--no-confirm'], after='submit', delay=rng.uniform(0, 10))
    if rng.random() < 0.25 and len(b.meta['clients']) > 1:
        b.fault(do='sigkill', proc='client1', **at_point(rng, 'client1', CLIENT_POINTS))
    if rng.random() < 0.2:
        b.fault(do='jump', host='h0', by=rng.choice([-3600, 40, -20, 86400]), at=rng.uniform(1, 20))
    if rng.random() < 0.2:
        name = rng.choice([*waits, *runs])
        b.fault(do='freeze', proc=name, at=rng.uniform(1, 20), **{'for': rng.choice([2, 10])})
    b.sc['optional_procs'] = [*waits, *runs, 'cancel0', *[x for x in b.meta['clients'] if x != 'client1']]
    return b.done(waits=waits, runs=runs, capture=capture, singles=b.meta.get('singles', {}))


def speak(rng, spec):
    if rng.random() < 0.6:
        spec['out'] = [[rng.choice([0, 0.5, 1]), rng.choice(['out', 'err']), f'{rng.choice(["one", "zwei ü", "{}", " "])} {k}\n']
                       for k in range(rng.randint(1, 4))]


def command(b, rng):
    tok = b.token(dur=round(rng.uniform(0, rng.choice([0.5, 8])), 3), exit=rng.choice([0, 0, 1, 3, 255, -15]))
    speak(rng, b.sc['specs'][tok])
    line = b.line(tok, 0.3)
    tags = rng.choice([None, None, ['kind:single'], ['kind:single', 'n:1'], ['bare']])
    return ' '.join(w for w in line.split() if not w.startswith('-')), tags


def single(b, rng, name, **kw):
    line, tags = command(b, rng)
    b.meta.setdefault('singles', {})[name] = {'line': line, 'tags': tags}
    b.proc(name, ['hs', 'task', 'submit', *(['-t', *tags] if tags else []), '--', *line.split(' ')], **kw)
    return name


def tag_value(tags):
    out = {}
    for t in tags or ():
        k, _, v = t.partition(':')
        out[k] = int(v) if v.isdigit() else v
    return out


def stored(run, name, info):
    """The one task this command stored, or None."""
    h = history(run)
    mine = [(seq, new) for lst in h.task_changes.values() for seq, t, proc, old, new in lst if proc == name and old is None]
    if len(mine) != 1:
        run.fail('not-one', f'{name} stored {len(mine)} tasks')
        return None
    row = mine[0][1]
    if row['args'] != info['line'] or json.loads(row['tag']) != tag_value(info['tags']):
        run.fail('not-one', f'{name} stored {describe(row)} with tags {row["tag"]}, asked for {info["line"]!r} {info["tags"]}')
        return None
    return row


def statuses(h, rid):
    """[(time, row)] of everything the row has been."""
    return [(t, new) for seq, t, proc, old, new in h.task_changes.get(rid, ())]


def frozen(run, name, since, until):
    return sum(f['for'] for f in run.scenario['faults'] if f['do'] == 'freeze' and f.get('proc') == name)


def timely(run, name, rid, interval, what):
    """Did the command end when its task was done? Returns the rows it may have seen, or None after a failure."""
    h, p = history(run), run.procs[name]
    lag = int((interval + slack(run.scenario) + frozen(run, name, 0, 0)) * NS)
    done = [(t, r) for t, r in statuses(h, rid) if r is not None and r['exit_status'] is not None]
    row = (done or statuses(h, rid))[-1][1] or h.rows.get(rid)
    if p.dead and (not done or done[0][0] > p.exit_time):
        run.fail('too-early', f'{name} ({what}) ended at {as_s(p.exit_time)} with {p.exit_code}, the task completed at '
                 f'{as_s(done[0][0] if done else None)}: {p.stderr.text()[-300:]!r}', p.exit_time)
        return None
    if done:
        due = max(done[0][0], p.started) + lag
        if (p.exit_time if p.dead else run.sim.now) > due:
            run.fail('too-late', f'{name} ({what}) polls every {interval}s, its task completed at {as_s(done[0][0])}, it '
                     f'{"ended at " + as_s(p.exit_time) if p.dead else "was still waiting at " + as_s(run.sim.now)}')
            return None
    if not p.dead:
        return None
    if p.started < done[0][0]:
        run.nontrivial = True
    since = p.exit_time - lag
    seen = [r for (t, r), (until, _) in zip(done, done[1:] + [(p.exit_time + 1, None)]) if until > since and t <= p.exit_time]
    return seen


def as_json(row):
    out = {}
    for k, v in row.items():
        if k == 'tag':
            v = json.loads(v)
        elif k == 'retried':
            v = bool(v)
        out[k] = v
    return out


def equal(shown, row):
    want = as_json(row)
    if set(shown) != set(want):
        return f'fields {sorted(set(shown) ^ set(want))}'
    for k, v in want.items():
        got = shown[k]
        if k.endswith('_time') and isinstance(got, str):
            got = got[:26]
            v = v[:26] if v else v
            if v and '.' not in v:
                got = got[:len(v)]
        if got != v:
            return f'{k} is {got!r}, recorded {v!r}'
    return None


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    for name, info in meta['singles'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        ended(run, [name], 0)
        if run.violations:
            return
        row = stored(run, name, info)
        if row is None:
            return
        if p.stdout.text() != row['id'] + '\n':
            run.fail('wrong-id', f'{name} printed {p.stdout.text()!r}, it stored {row["id"]}')
            return
    for name, info in meta['waits'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        if not waited(run, h, name, info, p):
            return
    for name, info in meta['runs'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        if not ran(run, h, name, info, p, meta):
            return
    tracebacks(run)


def waited(run, h, name, info, p):
    rid = p.argv[3]
    what = ' '.join(p.argv[3:])
    known = rid in h.task_changes and h.task_changes[rid][0][1] <= (p.exit_time or run.sim.now)
    if not known:
        if not p.dead or p.exit_code == 0 or p.exit_time > p.started + int((slack(run.scenario) + frozen(run, name, 0, 0)) * NS):
            run.fail('unknown-id', f'{name} ({what}) names no task and ' + (
                f'ended with {p.exit_code} at {as_s(p.exit_time)}' if p.dead else 'is waiting'))
            return False
        return True
    if p.dead and p.killed_by != 'exit':
        run.fail('died', f'{name} ended by {p.killed_by}')
        return False
    seen = timely(run, name, rid, info['n'], what)
    if seen is None:
        return not run.violations
    mode = info['mode']
    code = p.exit_code
    out = p.stdout.text()
    if '--return' in mode or '-r' in mode:
        if code & 0xFF not in [r['exit_status'] & 0xFF for r in seen]:
            run.fail('status', f'{name} ({what}) exited with {code}, recorded {[r["exit_status"] for r in seen]}')
            return False
        return True
    if code != 0:
        run.fail('status', f'{name} ({what}) exited with {code}: {p.stderr.text()[-300:]!r}')
        return False
    if '--status' in mode or '-s' in mode:
        if out.strip() not in [str(r['exit_status']) for r in seen]:
            run.fail('status', f'{name} ({what}) printed {out!r}, recorded {[r["exit_status"] for r in seen]}')
            return False
    elif '-i' in mode or '--info' in mode:
        if len(mode) == 1:
            if rid not in out or not any(str(r['exit_status']) in out for r in seen):
                run.fail('info', f'{name} ({what}) printed {out!r}')
                return False
            return True
        try:
            shown = json.loads(out) if 'json' in ' '.join(mode) else yaml.safe_load(out)
        except Exception as exc:
            run.fail('info', f'{name} ({what}) printed {out!r}: {exc}')
            return False
        why = [equal(shown, r) for r in seen]
        if all(why):
            run.fail('info', f'{name} ({what}): {why}')
            return False
    elif out:
        run.fail('info', f'{name} ({what}) printed {out!r}')
        return False
    return True


def ran(run, h, name, info, p, meta):
    row = None
    mine = [new for lst in h.task_changes.values() for seq, t, proc, old, new in lst if proc == name and old is None]
    if not p.dead and not mine and run.sim.now < p.started + int((slack(run.scenario) + frozen(run, name, 0, 0)) * NS):
        return True
    row = stored(run, name, info)
    if row is None:
        return False
    if p.dead and p.killed_by != 'exit':
        run.fail('died', f'{name} ended by {p.killed_by}')
        return False
    seen = timely(run, name, row['id'], info['n'], info['line'])
    if seen is None:
        return not run.violations
    recs = [r for r in h.execs.get(row['id'], ()) if r['end'] is not None and r['end'] <= p.exit_time]
    if not recs:
        if all(r['duration'] is None for r in seen):       # could not be started
            return True
        run.fail('too-early', f'{name} ({info["line"]!r}) ended at {as_s(p.exit_time)}, no execution had finished', p.exit_time)
        return False
    if run.scenario['env'].get('HYPERSHELL_LOGGING_LEVEL') != 'error':
        err = p.stderr.text()
        told = [s for s in [f'status ({r["exit_status"]})' for r in seen if r['exit_status']] if s in err]
        if any(r['exit_status'] for r in seen) and not told or all(not r['exit_status'] for r in seen) and 'status (' in err:
            run.fail('status', f'{name} ({info["line"]!r}) says {err[-300:]!r}, recorded {[r["exit_status"] for r in seen]}')
            return False
    if not meta['capture']:
        if p.exit_code == 0:
            run.fail('no-output', f'{name} ended with 0 although the output of its task was not captured')
            return False
        return True
    if p.exit_code != 0:
        run.fail('status', f'{name} ended with {p.exit_code}: {p.stderr.text()[-300:]!r}')
        return False
    for stream in ('out', 'err'):
        ok = False
        for r in recs:
            spec = run.world.specs.get(r['token']) or {}
            want = ''.join(text for frac, s, text in
                           sorted(spec.get('out', ()), key=lambda x: int(x[0] * spec['dur'] * NS)) if s == stream)
            got = getattr(p, 'std' + stream).text()
            ok = ok or (got == want if stream == 'out' else got.endswith(want))
        if not ok:
            run.fail('output', f'{name} ({info["line"]!r}) printed {got[-200:]!r}, its task wrote {want!r} to std{stream}')
            return False
    return True
