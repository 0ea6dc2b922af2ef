"""Scenario building blocks and oracles shared by the checks."""

import json
import os
from datetime import datetime

from sim.kernel import EPOCH, NS

PORT, KEY = '50001', 'sesame'

WORDS = ['alpha', 'beta=1', "it's", '"quoted arg"', 'ünïcödé', '日本語', 'back\\slash', 'a\\nb', 'tab\there', '{curly}',
         '%s%%', '$HOME', '`cmd`', ';', '|', '&&', '#hash', '--flag', '-x', 'null', 'None', 'true', '0', '007', '1e5',
         '[1, 2]', "{'k': 1}", '<in', '>out', '*', '?', '~', '\u2028', 'x' * 60, '2024-01-01', '\u00a0nb', 'CR\u0085x',
         'été', '10:30', '@', '@@', "''", '""', '\\', ',', ':', '=', 'a=b=c', '😀', 'NaN', '-1']
BARE = ['20240101', '2024-01-01', '2024-01-01 10:00:00', '2024-01-01T10:00:00+02:00', '12345678', '123456', 'null', '0',
        'true', '3.14', '[]', '{"a": 1}', '1700000000', '20231231T235959', '9999-12-31', '2024-W01-1', 'False', '""',
        '10:30:00', 'P1D', '2024001']
DATELIKE = {'20240101', '2024-01-01', '2024-01-01 10:00:00', '2024-01-01T10:00:00+02:00', '20231231T235959',
            '9999-12-31', '2024-W01-1', '12345678'}


# ---- scenarios -----------------------------------------------------------------------------------

def knobs(rng, calm=False):
    """Swarm configuration: each run has its own mixture of scheduling, delay and latency behaviour."""
    if calm:
        return {'preempt': rng.choice([0, 0, 300]), 'net_max': 0.001, 'db_max': 0.0005}
    k = {'preempt': rng.choice([0, 30, 100, 400, 1500])}
    if k['preempt']:
        k['nap_p'] = rng.choice([0, 0.003, 0.02])
        k['nap_max'] = rng.choice([0.1, 1.0, 3.0])
    k['net_max'] = rng.choice([0.0005, 0.005, 0.05, 0.3])
    if rng.random() < 0.4:
        k['net_tail_p'] = rng.choice([0.02, 0.1])
        k['net_tail'] = rng.choice([0.5, 2.5, 6.0])
    k['db_max'] = rng.choice([0.0005, 0.005, 0.03])
    if rng.random() < 0.3:
        k['db_tail_p'] = rng.choice([0.01, 0.05])
        k['db_tail'] = rng.choice([0.2, 0.6])
    k['feeder_max'] = rng.choice([0.0005, 0.01, 0.1])
    if rng.random() < 0.3:
        k['feeder_tail_p'] = rng.choice([0.03, 0.1])
        k['feeder_tail'] = rng.choice([0.3, 2.0])
    return k


def slack(sc):
    """Seconds by which the configured delays may push a timely action out, with a wide margin."""
    k = sc.get('knobs', {})
    s = 1.0 + 20 * k.get('net_max', 0.001) + 20 * k.get('db_max', 0.0005) + 4 * k.get('feeder_max', 0.001)
    if k.get('preempt') and k.get('nap_p'):
        s += 4 * k.get('nap_max', 0.5)
    if k.get('net_tail_p'):
        s += 4 * k.get('net_tail', 0.5)
    if k.get('db_tail_p'):
        s += 6 * k.get('db_tail', 1.0)
    if k.get('feeder_tail_p'):
        s += 2 * k.get('feeder_tail', 0.5)
    return s


class Builder:
    """Collects one scenario; `meta` holds what the oracles need to know about it."""

    def __init__(self, rng, calm=False, horizon=1500, knobs_=None):
        self.rng = rng
        self.sc = {'knobs': knobs_ if knobs_ is not None else knobs(rng, calm), 'env': {}, 'files': {}, 'specs': {},
                   'procs': [], 'faults': [], 'horizon': horizon, 'meta': {'lines': [], 'clients': [], 'servers': []}}
        self.meta = self.sc['meta']
        self.env(DATABASE_FILE='%S%/hs.db', LOGGING_LEVEL=rng.choice(['trace', 'debug', 'warning']))
        self.ntok = 0

    def env(self, **kw):
        for k, v in kw.items():
            self.sc['env'][f'HYPERSHELL_{k}'] = str(v)

    def token(self, **spec):
        name = f't{self.ntok}'
        self.ntok += 1
        self.sc['specs'][name] = spec
        return name

    def line(self, name, weird=0.3):
        rng = self.rng
        words = [f'@{name}@']
        if rng.random() < weird:
            for _ in range(rng.randint(1, 3)):
                words.insert(rng.randint(0, len(words)), rng.choice(WORDS))
        else:
            words.insert(0, 'run')
        return ' '.join(words).strip()

    def tasks(self, n, dur=(0.0, 2.0), fail=0.25, weird=0.3, bare=0.0, seq=0.0, dup=0.0):
        """`n` input lines; their programs' behaviour by token."""
        rng, out = self.rng, []
        lo, hi = dur
        for _ in range(n):
            if bare and rng.random() < bare:
                out.append(rng.choice(BARE))
                continue
            if dup and out and rng.random() < dup:
                out.append(rng.choice(out))
                continue
            d = round(rng.choice([lo, rng.uniform(lo, hi), rng.uniform(lo, hi), hi]), 3)
            spec = {'dur': d, 'exit': rng.choice([1, 2, 127, -9, 255]) if rng.random() < fail else 0}
            if seq and rng.random() < seq:
                k = rng.randint(1, 3)
                spec['exit'] = 0
                spec['seq'] = [{'exit': rng.choice([1, 3])} for _ in range(k)]
            out.append(self.line(self.token(**spec), weird))
        return out

    def file(self, rel, lines, noise=False):
        rng = self.rng
        text = []
        for ln in lines:
            if noise:
                ln = rng.choice(['', ' ', '\t', '  ']) + ln + rng.choice(['', ' ', '\t', '   '])
            text.append(ln + '\n')
        body = ''.join(text)
        if noise and body and rng.random() < 0.3 and text[-1] != '\n':      # else it would be no line at all
            body = body[:-1]
        self.sc['files'][rel] = body
        return f'%S%/{rel}'

    def feed(self, lines, gap=(0.0, 3.0), burst=0.5, close=None):
        """stdin schedule."""
        rng, t, out = self.rng, 0.2, []
        for ln in lines:
            if rng.random() > burst:
                t += rng.uniform(*gap)
            out.append([round(t, 3), ln + '\n'])
        if close:
            out.append([round(t + close, 3), ''])
        return out

    def proc(self, name, argv, **kw):
        self.sc['procs'].append({'name': name, 'argv': argv, **kw})
        return self.sc['procs'][-1]

    def server(self, *args, name='server', **kw):
        argv = ['hs', 'server', *map(str, args), '-p', PORT, '-k', KEY]
        host = kw.get('host', 'h0')
        if 'H' in kw:
            argv += ['-H', kw.pop('H')]
        self.meta['servers'].append(name)
        return self.proc(name, argv, **kw)

    def client(self, *args, name=None, N=None, b=None, w=None, server_host=None, **kw):
        name = name or f'client{len(self.meta["clients"]) + 1}'
        argv = ['hs', 'client', '-p', PORT, '-k', KEY, *map(str, args)]
        if N is not None:
            argv += ['-N', str(N)]
        if b is not None:
            argv += ['-b', str(b)]
        if w is not None:
            argv += ['-w', str(w)]
        if server_host:
            argv += ['-H', server_host]
        self.meta['clients'].append(name)
        if not {'at', 'after', 'upon'} & set(kw):
            kw['upon'] = [kw.pop('server', 'server'), 'listen', 1]
            kw.setdefault('delay', round(self.rng.choice([0.1, 0.1, self.rng.uniform(0, 3), self.rng.uniform(0, 15)]), 2))
        return self.proc(name, argv, **kw)

    def fault(self, **f):
        self.sc['faults'].append(f)
        return f

    def done(self, **meta):
        self.meta.update(meta)
        return self.sc


# points at which a process can be hit, with how often they typically occur in a short run
CLIENT_POINTS = [('rpc:scheduled.get', 12), ('rpc-sent:scheduled.get', 12), ('rpc-done:scheduled.get', 12),
                 ('rpc-done:scheduled.task_done', 6), ('rpc:confirmed.put', 6), ('rpc-done:confirmed.put', 6),
                 ('rpc:completed.put', 6), ('rpc-sent:completed.put', 6), ('rpc-done:completed.put', 6),
                 ('rpc:heartbeat.put', 8), ('rpc-done:heartbeat.put', 8), ('popen', 8), ('popen-done', 8),
                 ('child-reaped', 8), ('child-wait', 20), ('proc-main', 1), ('connect', 6)]
SERVER_POINTS = [('db-execute', 60), ('db-execute-done', 60), ('db-commit', 30), ('db-commit-done', 30),
                 ('pipe-write:scheduled', 10), ('pipe-write:completed', 2), ('db-connect', 4), ('proc-main', 1),
                 ('listen', 1)]


def at_point(rng, proc, points):
    point, n = rng.choice(points)
    return {'on': [proc, point, rng.randint(1, n)]}


# ---- reading the history ---------------------------------------------------------------------------

def db_time(text):
    """Stored wall-clock text as virtual ns on an unskewed host."""
    if text is None:
        return None
    return int(round((datetime.fromisoformat(text + '+00:00').timestamp() - EPOCH / NS) * 1e6)) * 1000


def as_s(ns):
    return 'never' if ns is None else f'{ns / NS:.3f}s'


class History:
    """Task and client rows over time and the executions that belong to them."""

    def __init__(self, run):
        self.run = run
        self.meta = run.scenario.get('meta', {})
        self.rows = run.rows()
        self.clients = run.clients()
        self.task_changes = {}           # id -> [(seq, t, proc, old, new)]
        self.client_changes = {}
        for seq, t, proc, table, rid, old, new in run.changes():
            (self.task_changes if table == 'task' else self.client_changes).setdefault(rid, []).append(
                (seq, t, proc, old, new))
        self.execs = {}                  # id -> [ledger records]
        for r in run.ledger:
            self.execs.setdefault(r['env'].get('TASK_ID'), []).append(r)

    def done_at(self, rid):
        """When the task first had a completion record, or None."""
        for seq, t, proc, old, new in self.task_changes.get(rid, ()):
            if new is not None and new['completion_time'] is not None:
                return t
        return None

    def completions(self, rid):
        out = []
        for seq, t, proc, old, new in self.task_changes.get(rid, ()):
            if new is not None and new['completion_time'] is not None and (
                    old is None or old['completion_time'] is None):
                out.append((seq, t, proc, new))
        return out

    def scheduled(self, rid):
        """Times at which the row went from unscheduled to scheduled."""
        return [t for seq, t, proc, old, new in self.task_changes.get(rid, ())
                if new is not None and new['schedule_time'] is not None
                and (old is None or old['schedule_time'] is None)]

    def roots(self):
        return [r for r in self.rows.values() if r['previous_id'] is None]

    def chain(self, row):
        out = [row]
        while out[-1]['next_id'] and out[-1]['next_id'] in self.rows and len(out) < 100:
            out.append(self.rows[out[-1]['next_id']])
        return out


def history(run):
    h = getattr(run, '_hist', None)
    if h is None:
        h = run._hist = History(run)
    return h


def describe(row):
    return f"task {row['args']!r} (attempt {row['attempt']}, id {row['id'][:8]})"


# ---- oracles ----------------------------------------------------------------------------------------

def crashes(run):
    """Threads of the code under test that died with an unexpected exception: [(proc, thread, exception)]."""
    out = []
    for t in run.sim.keep:
        e = getattr(t, 'error', None)
        if e is not None and t.proc is not None:
            out.append((t.proc.name, t.name, e))
    return out


def tracebacks(run):
    """Exceptions recorded by the code under test itself."""
    out = []
    for p in run.procs.values():
        if p.crash_text:
            out.append((p.name, p.crash_text.strip().splitlines()[-1]))
    for root, _, names in os.walk(run.world.scratch):
        if os.sep + 'log' in root:
            for n in sorted(names):
                with open(os.path.join(root, n), errors='replace') as f:
                    text = f.read()
                if 'Traceback' in text:
                    out.append((n, text.strip().splitlines()[-1]))
    return out


def ended(run, names, code=0, prop=None, crash_ok=()):
    """Every named process ended by itself with the expected status."""
    for name in names:
        p = run.procs.get(name)
        if p is None:
            continue
        if p.started is None:
            continue
        if p.dead and p.exit_code not in (0, None) and refused_late(run, p):
            continue
        if not p.dead:
            tb = tracebacks(run)
            run.fail(hang_kind(run), f'{name} was still running at {run.sim.now / NS:.0f}s ({run.sim.stop_reason})'
                     + (f'; recorded exceptions: {tb[:3]}' if tb else ''), prop=prop)
        elif p.killed_by == 'exit' and code is not None and p.exit_code != code:
            run.fail('exit-status', f'{name} ended with status {p.exit_code}: {p.stderr.text()[-600:]!r}',
                     p.exit_time, prop=prop)
        elif p.killed_by not in ('exit',) and name not in crash_ok:
            run.fail('killed', f'{name} ended by {p.killed_by}', p.exit_time, prop=prop)


def carried(obj):
    """Task ids in a recorded bundle or confirmation."""
    if obj is None or isinstance(obj, str):
        return []
    if isinstance(obj, bytes):
        try:
            data = json.loads(obj)
        except ValueError:
            return []
        return list(data.get('task_ids', ())) if isinstance(data, dict) else []
    if isinstance(obj, list):
        return [json.loads(x)['id'] for x in obj]
    return []


def hang_kind(run):
    """'hang-unconfirmed' when every task still open was received by a client that died (or whose connection was lost)
    before its confirmation reached the server's queue; 'hang' otherwise."""
    h = history(run)
    cut = any(f['do'] in ('reset', 'partition') for f in run.scenario.get('faults', ()))
    open_ = [r for r in h.rows.values() if r['completion_time'] is None]
    if not open_ or any(r['schedule_time'] is None or r['client_id'] is not None for r in open_):
        return 'hang'
    got, confirmed = {}, set()
    for seq, t, kind, proc, data in run.events:
        if kind == 'q-put' and data.get('q') == 'confirmed':
            confirmed.update(carried(data.get('obj')))
        elif kind == 'rpc-ok' and data.get('q') == 'scheduled' and data.get('m') == 'get':
            for rid in carried(data.get('obj')):
                got[rid] = proc
                confirmed.discard(rid)
        elif kind == 'reply-lost':
            for rid in carried(data.get('obj')):
                got[rid] = data.get('client') or '?'
                confirmed.discard(rid)
    for r in open_:
        name = got.get(r['id'])
        p = run.procs.get(name)
        if r['id'] in confirmed or name is None or (p is not None and not (
                p.dead and (p.killed_by != 'exit' or cut and p.exit_code != 0))):
            return 'hang'
        if any(x['client'] == name for x in h.execs.get(r['id'], ())):
            return 'hang'                # it ran the task without having confirmed it
    return 'hang-unconfirmed'


def client_uuid(run, name):
    """The identity a client process announced in its heartbeats."""
    ids = run.__dict__.get('_uuids')
    if ids is None:
        ids = run._uuids = {}
        for seq, t, kind, proc, data in run.events:
            if kind == 'rpc' and data.get('q') == 'heartbeat' and data.get('obj'):
                ids.setdefault(proc, json.loads(data['obj'])['uuid'])
    return ids.get(name)


def registered(run, name, server=None):
    """When the server read the client's first heartbeat, or None."""
    seen = run.__dict__.get('_registered')
    if seen is None:
        seen = run._registered = {}
        for seq, t, kind, proc, data in run.events:
            if kind == 'q-get' and data.get('q') == 'heartbeat' and data.get('obj'):
                seen.setdefault(json.loads(data['obj'])['uuid'], t)
    return seen.get(client_uuid(run, name))


def refused_late(run, p):
    """A client that arrived when its server was no longer (or not yet) there."""
    return 'client' in p.argv[:4] and registered(run, p.name) is None and not any(
        r['client'] == p.name for r in run.ledger) and any(
        x in p.stderr.text() for x in ('refused', 'reset', 'EOFError', 'disconnect', 'BrokenPipe'))


def all_complete(run, server='server', cancelled=(), prop=None):
    """At the normal end of the server every task has a completion record."""
    h = history(run)
    p = run.procs.get(server)
    if p is None or not p.dead or p.killed_by != 'exit' or p.exit_code != 0:
        return
    for r in h.rows.values():
        if r['completion_time'] is None and r['id'] not in cancelled:
            n = len(h.execs.get(r['id'], ()))
            run.fail('lost', f'{server} finished at {as_s(p.exit_time)} but {describe(r)} has no completion record '
                     f'(executed {n} times, client {str(r["client_id"])[:8]})', prop=prop)
            return


def executed_once(run, prop=None, ids=None):
    h = history(run)
    for rid, row in h.rows.items():
        if ids is not None and rid not in ids:
            continue
        n = len(h.execs.get(rid, ()))
        if row['schedule_time'] is not None and row['completion_time'] is not None and n != 1 \
                and not launch_failure(row):
            run.fail('not-once', f'{describe(row)} was executed {n} times', prop=prop)
            return
        if n > 1:
            run.fail('not-once', f'{describe(row)} was executed {n} times', prop=prop)
            return
    for rid, recs in h.execs.items():
        if rid not in h.rows:
            run.fail('unknown-task', f'execution of {recs[0]["command"]!r} belongs to no recorded task', prop=prop)
            return


def launch_failure(row):
    return row['exit_status'] is not None and row['duration'] is None


def expected_command(args, template):
    """Reference expansion for the templates the scenarios use."""
    out, i = '', 0
    while i < len(template):
        if template.startswith('{', i):
            j = template.index('}', i)
            key = template[i + 1:j].strip()
            out += expand_key(args, key)
            i = j + 1
        else:
            out += template[i]
            i += 1
    return out


def expand_key(args, key):
    if key == '':
        return args
    head, sep, tail = args.rpartition('/')
    stem, dot, ext = tail.rpartition('.')
    if not stem.strip('.'):
        stem, ext_full = tail, ''
    else:
        ext_full = dot + ext
    dirname = (head or '/') if sep and not head.strip('/') else head.rstrip('/') if sep else ''
    if key == '/':
        return tail
    if key == '/-':
        return stem
    if key == '+':
        return ext_full
    if key == '++':
        return ext_full[1:]
    if key == '-':
        return args[:len(args) - len(ext_full)]
    if key == '.':
        return dirname
    if key.startswith('[') and key.endswith(']'):
        words = args.split()
        parts = key[1:-1].split(':')
        if len(parts) == 1:
            return words[int(parts[0])]
        return ' '.join(words[slice(*[int(x) if x else None for x in parts])])
    raise ValueError(key)


def records_true(run, template='{}', prop=None, skew=None):
    """Each completion record describes one execution of that very task."""
    h = history(run)
    for rid in h.task_changes:
        for seq, t, proc, row in h.completions(rid):
            if proc and run.procs[proc].argv[1:2] in (['task'], ['update'], ['cancel']):
                continue
            if launch_failure(row):
                continue
            recs = [r for r in h.execs.get(rid, ()) if r['end'] is not None and r['end'] <= t]
            if not recs:
                run.fail('phantom', f'{describe(row)} was recorded complete without a finished execution', t, prop=prop)
                return
            ok, why = False, ''
            for r in recs:
                why = mismatch(run, row, r, template)
                if not why:
                    ok = True
                    break
            if not ok:
                run.fail('record', f'{describe(row)}: {why}', t, prop=prop)
                return


def mismatch(run, row, r, template):
    p = run.procs[r['client']]
    skew = p.skew()
    slop = int((slack(run.scenario) + 1.6) * NS)
    slop += int(sum(f['for'] for f in run.scenario.get('faults', ()) if f['do'] == 'freeze' and f['proc'] == r['client']) * NS)
    if row['exit_status'] != r['status']:
        return f"recorded exit status {row['exit_status']}, the program returned {r['status']}"
    if row['command'] != r['command']:
        return f"recorded command {row['command']!r}, executed {r['command']!r}"
    if template is not None and row['command'] != expected_command(row['args'], template):
        return f"command {row['command']!r} is not the template {template!r} applied to {row['args']!r}"
    if row['client_host'] != r['host']:
        return f"recorded host {row['client_host']!r}, ran on {r['host']!r}"
    uuid = client_uuid(run, r['client'])
    if row['client_id'] is None or (uuid is not None and row['client_id'] != uuid):
        return f"recorded client {row['client_id']}, ran on {r['client']} which is {uuid}"
    start, end = db_time(row['start_time']), db_time(row['completion_time'])
    if start is None:
        return 'no start time recorded'
    start -= skew
    end -= skew
    if getattr(run, 'exact_times', True):
        if not (r['start'] - slop <= start <= r['start'] + 1_000_000):
            return f"recorded start {as_s(start)}, program started {as_s(r['start'])}"
        if not (r['end'] - 1_000_000 <= end <= r['end'] + slop):
            return f"recorded completion {as_s(end)}, program ended {as_s(r['end'])}"
        dur = row['duration']
        if dur is None or abs(dur - (end - start) / NS) > 1.01:
            return f"recorded duration {dur}, from {as_s(start)} to {as_s(end)}"
    return None


def lines_preserved(run, lines, prop=None, tags=None, complete=True):
    """The stored root tasks are exactly the submitted lines."""
    h = history(run)
    got = sorted(r['args'] for r in h.roots())
    want = sorted(ln.strip() for ln in lines)
    if complete and got != want:
        extra = list(got)
        missing = []
        for w in want:
            if w in extra:
                extra.remove(w)
            else:
                missing.append(w)
        run.fail('lines', f'{len(want)} lines submitted, {len(got)} tasks stored; missing {missing[:3]!r}, '
                 f'unexpected {extra[:3]!r}', prop=prop)


FIXED = ('args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'previous_id', 'tag')


def data_unchanged(run, prop=None, editors=()):
    """Arguments, tags and submission data of a task never change after submission."""
    h = history(run)
    for rid, lst in h.task_changes.items():
        for seq, t, proc, old, new in lst:
            if old is None or new is None or proc in editors:
                continue
            for f in FIXED:
                a, b = old[f], new[f]
                if f == 'tag':
                    a, b = json.loads(a), json.loads(b)
                if a != b:
                    run.fail('altered', f'{describe(old)}: {f} changed from {a!r} to {b!r} by {proc}', t, prop=prop)
                    return


def state_before(h, rid, seq):
    """The row as it was just before a point of the history."""
    was = None
    for s, t, proc, old, new in h.task_changes.get(rid, ()):
        if s >= seq:
            break
        was = new
    return was


def links(run, attempts, prop=None, finished=True):
    """Retry chains."""
    h = history(run)
    rows = h.rows
    seen = {}
    for r in rows.values():
        if r['next_id'] is not None:
            n = rows.get(r['next_id'])
            if n is None or n['previous_id'] != r['id']:
                run.fail('links', f'{describe(r)} names a successor that does not name it back', prop=prop)
                return
            if not r['retried']:
                run.fail('links', f'{describe(r)} has a successor but is not marked retried', prop=prop)
                return
        if r['previous_id'] is not None:
            o = rows.get(r['previous_id'])
            if o is None or o['next_id'] != r['id']:
                run.fail('links', f'{describe(r)} names a predecessor that does not name it back', prop=prop)
                return
            if r['previous_id'] in seen:
                run.fail('two-successors', f'{describe(o)} has two successors', prop=prop)
                return
            seen[r['previous_id']] = r['id']
            if r['attempt'] != o['attempt'] + 1:
                run.fail('attempt-number', f"{describe(r)} follows attempt {o['attempt']}", prop=prop)
                return
            if r['args'] != o['args'] or json.loads(r['tag']) != json.loads(o['tag']):
                run.fail('retry-data', f'{describe(r)} differs from the task it retries '
                         f"({o['args']!r} {o['tag']} / {r['args']!r} {r['tag']})", prop=prop)
                return
            was = state_before(h, o['id'], h.task_changes[r['id']][0][0])
            if was is not None and was['exit_status'] == 0:
                run.fail('retried-success', f'{describe(o)} succeeded and was retried', prop=prop)
                return
        elif r['attempt'] != 1:
            run.fail('attempt-number', f'{describe(r)} is the first of its kind', prop=prop)
            return
        if r['attempt'] > attempts:
            run.fail('too-many', f'{describe(r)} exceeds the limit of {attempts} attempts', prop=prop)
            return
    if finished:
        for r in rows.values():
            if r['exit_status'] not in (None, 0) and r['completion_time'] is not None and r['attempt'] < attempts \
                    and r['next_id'] is None:
                run.fail('not-retried', f"{describe(r)} failed with status {r['exit_status']} and was not attempted "
                         f'again (limit {attempts})', prop=prop)
                return


def server_done(run, name='server'):
    p = run.procs.get(name)
    return p is not None and p.dead and p.killed_by == 'exit' and p.exit_code == 0


# ---- a whole service --------------------------------------------------------------------------------

def service(b, lines, *, clients=None, evict=600, retries=0, size=None, hosts=False, noconfirm=0.0, heartrate=None,
            timeout=0.0, mode=None, client_args=(), server_args=(), wait=None, executors=None):
    """A server with its input and some clients; returns what was chosen."""
    rng = b.rng
    size = size or rng.choice([1, 1, 2, 3, 5, 8])
    wait = wait or rng.choice([1, 1, 2, 5])
    nc = ['--no-confirm'] if rng.random() < noconfirm else []
    heartrate = heartrate or rng.choice([1, 2, 5])
    b.env(SERVER_QUEUESIZE=rng.choice([1, 1, 1, 2, 4]), SERVER_EVICT=evict, CLIENT_HEARTRATE=heartrate)
    mode = mode or rng.choice(['file', 'file', 'stdin', 'restart'])
    args = ['-b', size, '-w', wait, '-r', retries, *nc, *server_args]
    if hosts:
        args += ['-H', '0.0.0.0']
    if mode == 'file':
        b.server(b.file('tasks.txt', lines), *args)
    elif mode == 'stdin':
        b.server('-', *args, stdin=b.feed(lines, gap=(0, 1.0), burst=0.7))
    elif mode == 'restart':
        b.proc('submit', ['hs', 'submit', b.file('tasks.txt', lines), '-b', str(rng.choice([1, 4, 50]))])
        b.server('--restart', *args, after='submit', delay=1)
    names = []
    for k in range(clients or rng.choice([1, 2, 2, 3, 4])):
        extra = list(client_args)
        if rng.random() < timeout:
            extra += ['-T', rng.choice([6, 10, 20])]
        kw = {}
        if hosts:
            kw = {'host': f'h{k + 1}', 'server_host': 'h0'}
        p = b.client(*extra, *nc, N=executors or rng.choice([1, 1, 2, 3, 4]), b=rng.choice([1, 1, size, 2, 4]),
                     w=rng.choice([1, 1, 3]), **kw)
        names.append(p['name'])
    b.meta.update(mode=mode, attempts=retries + 1, size=size, evict=evict, heartrate=heartrate, wait=wait,
                  confirm=not nc)
    return names
