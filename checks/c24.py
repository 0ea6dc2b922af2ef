"""C24: searches and reports show exactly what is stored."""

import csv
import io
import re
import shlex
from collections import Counter
from datetime import datetime, timedelta

import yaml

from .common import *

RULE = ('a run counts when at least three commands reported on tasks while the tasks changed or afterwards; distinct means '
        'a different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database and does not fail', 'captured output is shown on the host it was written on (no '
               'file transfer over SSH)', 'standard output is not a terminal']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}

NULL = object()
TEXT = ['id', 'args', 'submit_id', 'submit_host', 'server_id', 'server_host', 'client_id', 'client_host', 'command', 'outpath',
        'errpath', 'previous_id', 'next_id']
WHOLE = ['exit_status', 'attempt', 'waited', 'duration']
TIMES = ['submit_time', 'schedule_time', 'start_time', 'completion_time']
FIELDS = [*TEXT, *WHOLE, *TIMES, 'retried', 'tag']
COLUMNS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id',
           'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried',
           'waited', 'duration', 'previous_id', 'next_id', 'tag']
KEYS = ['site', 'n', 'x.y', 'z-1', 'flag', 'odd']
VALUES = {'site': ['a', 'b', 'us-west.1', '007', 'c+d'], 'n': ['0', '1', '12', '-3', '1.5', '1e20', '2.5e-7', '100000000000'],
          'x.y': ['true', 'false', 'null', ''], 'z-1': ['', 'a', '1', '0', 'None'], 'flag': ['', 'true'],
          'odd': ['2024-01-01', '1e5', 'a_b', '+7', '1_0', '.5']}
NUMBERS = ['007', '1e3', '+5', '1.50', 'true', 'FALSE', '-0', '1_000', 'null', 'None', '12', 'inf']
EDITED = [' led by a space', 'a space after ', "'quoted'", '"quoted"', 'two\nlines', 'a\ttab', '  ', '\n', '[b]bold[/b]', "it's \\"]
OUTPUT = ['one\n', 'zwei ü\n', 'no newline', 'cr\r\nlf\r\n', 'lone\rcr\r', '\udcff\udcfe raw \udc80\n', '\x00\x1b[1m\n', '',
          '日本語 😀\n', 'x' * 3000 + '\n', '\n\n']


def coerce(text):
    low = text.lower()
    if low in ('true', 'false'):
        return low == 'true'
    if low in ('null', 'none'):
        return None
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return text


# ---- what is asked -------------------------------------------------------------------------------

def clock(rng):
    """Around the time of the run, to the second or less."""
    t = datetime.utcfromtimestamp(EPOCH // NS if EPOCH > 10**12 else EPOCH) + timedelta(seconds=rng.uniform(-5, 60))
    return t.isoformat(sep=' ')[:rng.choice([10, 16, 19, 26])]


def condition(rng, lines):
    r = rng.random()
    op = rng.choice(['==', '!=', '>', '>=', '<', '<='])
    if r < 0.4:
        f = rng.choice([*WHOLE, 'exit_status'])
        v = rng.choice({'exit_status': ['0', '1', '255', '-1', '2', '-9', '0.5'], 'attempt': ['1', '2', '1.5'],
                        'waited': ['0', '1', '2', '5', '10'], 'duration': ['0', '1', '2', '3']}[f])
    elif r < 0.5:
        f, op, v = rng.choice([*WHOLE, *TIMES, *TEXT]), rng.choice(['==', '!=']), rng.choice(['null', 'None', 'NULL'])
    elif r < 0.65:
        numbers = [x for x in lines if x in NUMBERS]
        if numbers and rng.random() < 0.5:
            f, op, v = 'args', rng.choice(['==', '==', op]), rng.choice(numbers)
        else:
            f, v = 'args', rng.choice([*lines, 'm', 'run', '7', '"'])
    elif r < 0.75:
        f, op = 'args', '~'
        v = rng.choice(['@t[0-4]@', '^run', '@t1', r'\$$', '[^ -~]', r'\d \S', '"', '.', 'a|b$', r'^\S+$', '@t.@ .'])
    elif r < 0.8:
        f, op, v = rng.choice(['command', 'client_host', 'outpath']), '~', rng.choice(['t', '@', '^h0$', r'\.out$', 'x'])
    elif r < 0.85:
        f, v = rng.choice(['submit_host', 'client_host', 'server_host']), rng.choice(['h0', 'h1', 'a', 'z'])
    elif r < 0.9:
        f, v = rng.choice(TIMES), clock(rng)
    elif r < 0.95:
        f, op, v = 'retried', rng.choice(['==', '!=']), rng.choice(['true', 'false', 'True', '1', '0'])
    else:
        f, op, v = 'id', rng.choice(['==', '!=']), f'%task:{rng.randint(0, 9)}%'
    if v.lower() in ('null', 'none') and op not in ('==', '!=', '~'):
        op = '!='
    return [f, op, v]


def clause(rng, c):
    gap = ' ' if c[2][:1] in '=' or c[2][:1] == '~' else rng.choice([' ', ' ', '', '  '])
    return f'{c[0]}{rng.choice([" ", "", "  "])}{c[1]}{gap}{c[2]}'


def search(rng, lines):
    q = {'kind': 'search', 'where': [condition(rng, lines) for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))], 'tags': [],
         'alias': rng.choice([None, None, None, 'F', 'S', 'C', 'R', 'finished']), 'order': None, 'desc': False, 'limit': None,
         'count': rng.random() < 0.15, 'fields': None, 'format': None, 'delim': None}
    argv = ['hs', 'task', 'search']
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        k = rng.choice(KEYS)
        q['tags'].append([k, rng.choice([None, *VALUES[k], *VALUES[k]]) if rng.random() < 0.95 else 'other'])
    if rng.random() < 0.6:
        q['fields'] = rng.sample(COLUMNS, rng.choice([1, 1, 2, 3, 5]))
        if rng.random() < 0.5 and 'args' not in q['fields']:
            q['fields'].append('args')
        argv += q['fields']
    if q['where']:
        argv += ['-w', *[clause(rng, c) for c in q['where']]]
    if q['tags']:
        argv += [rng.choice(['-t', '--with-tag']), *[k if v is None else f'{k}:{v}' for k, v in q['tags']]]
    if q['alias']:
        argv.append({'finished': '--finished'}.get(q['alias']) or rng.choice(
            [f'-{q["alias"]}', {'F': '--failed', 'S': '--succeeded', 'C': '--completed', 'R': '--remaining'}[q['alias']]]))
    if rng.random() < 0.4:
        q['order'] = rng.choice([*TIMES, *WHOLE, 'args', 'submit_time', 'client_host'])
        argv += ['-s', q['order']]
        if rng.random() < 0.5:
            q['desc'] = True
            argv.append('--desc')
    if rng.random() < 0.3:
        q['limit'] = rng.choice([1, 1, 2, 5, 100])
        argv += ['-l', str(q['limit'])]
    if len(argv) == 3 and not q['count']:                  # without any argument it only prints its usage
        q['limit'] = 100
        argv += ['--limit', '100']
    if q['count']:
        argv.append(rng.choice(['-c', '--count']))
        return q, argv
    f = rng.choice([None, None, 'json', 'json', 'csv', 'csv', 'plain', 'table', *([] if q['fields'] else ['normal'])])
    if f:
        argv += rng.choice([['-f', f], [f'--{f}'] if f in ('json', 'csv') else ['--format', f]])
    q['format'] = f or ('plain' if q['fields'] else 'normal')
    if q['format'] in ('csv', 'plain') and rng.random() < 0.3:
        q['delim'] = rng.choice([';', '|', ':', ' '] + ([', ', '--', '\u241f', ''] if q['format'] == 'plain' else []))
        argv += [f'-d{q["delim"]}'] if q['delim'] and q['delim'] != '--' else [f'--delimiter={q["delim"]}']
    return q, argv


def question(rng, lines):
    r = rng.random()
    if r < 0.68:
        return search(rng, lines)
    if r < 0.74:
        return {'kind': 'keys'}, ['hs', 'task', 'search', '--tag-keys']
    if r < 0.81:
        k = rng.choice([*KEYS, 'none'])
        return {'kind': 'values', 'key': k}, ['hs', 'task', 'search', '--tag-values', k]
    which = f'%task:{rng.randint(0, 30)}%'
    q = {'kind': 'info', 'field': None, 'format': None, 'stream': None}
    argv = ['hs', 'task', 'info', which]
    r = rng.random()
    if r < 0.35:
        q['field'] = rng.choice([*COLUMNS, 'tag', 'args'])
        argv += [rng.choice(['-x', '--extract']), q['field']]
    elif r < 0.55:
        q['stream'] = rng.choice(['stdout', 'stderr'])
        argv.append(f'--{q["stream"]}')
    if not q['stream'] and (not q['field'] or q['field'] == 'tag' and rng.random() < 0.4):
        q['format'] = rng.choice(['json', 'yaml'] + ([None] if not q['field'] else []))
        if q['format']:
            argv += rng.choice([[f'--{q["format"]}'], ['-f', q['format']]])
    return q, argv


def generate(rng, i, tier):
    b = Builder(rng, horizon=120)
    n = rng.choice([rng.randint(2, 16), rng.randint(2, 16), rng.randint(20, 40)])
    lines = b.tasks(n, fail=0.35, dur=rng.choice([(0, 0.5), (0, 3), (1, 6)]), weird=0.5, bare=rng.choice([0, 0.2]))
    lines = [x.strip() or 'run' for x in lines]
    for _ in range(rng.choice([0, 0, 1, 2])):
        lines[rng.randrange(n)] = rng.choice(NUMBERS)
    for s in b.sc['specs'].values():
        if rng.random() < 0.6:
            s['out'] = [[rng.choice([0, 0.5, 1]), rng.choice(['out', 'err']), rng.choice(OUTPUT)]
                        for _ in range(rng.randint(1, 3))]
    b.env(SERVER_QUEUESIZE=rng.choice([1, 2, 8]), SERVER_EVICT=20, CLIENT_HEARTRATE=1)
    b.sc['env']['COLUMNS'] = '60000'
    last, rest = None, list(lines)
    for k in range(rng.choice([1, 2, 3])):
        part, rest = (rest, []) if k == 2 else (rest[:len(rest) // 2 + 1], rest[len(rest) // 2 + 1:])
        if not part:
            break
        tags = [x for x in (rng.choice(KEYS) for _ in range(rng.choice([0, 1, 2, 3])))]
        argv = ['hs', 'submit', b.file(f'tasks{k}.txt', part), '-b', str(rng.choice([1, 50]))]
        if tags:
            argv += ['--tag', *[f'{t}:{v}' if v or rng.random() < 0.5 else t for t in dict.fromkeys(tags)
                                for v in [rng.choice(VALUES[t])]]]
        kw = {} if last is None else {'after': last, 'delay': rng.choice([0.1, 3])}
        last = b.proc(f'submit{k}', argv, **kw)['name'] or f'submit{k}'
    b.server('--forever', '-b', rng.choice([1, 2, 8]), '-w', 1, '-r', rng.choice([0, 0, 1, 2]), after='submit0',
             delay=rng.choice([0.2, 1, 6]))
    for k in range(rng.choice([1, 1, 2])):
        b.client(*(['--capture'] if rng.random() < 0.8 else []), N=rng.choice([1, 2, 4]), b=rng.choice([1, 2]), w=1,
                 delay=rng.choice([0.1, 5]))
    if rng.random() < 0.3:
        b.proc('edit', ['hs', 'task', 'update', rng.choice(['n:7', 'site:b', 'x.y:null', 'flag:']), '-w', f'attempt == 1',
                        '--limit', str(rng.choice([1, 3])), '--no-confirm'], after='submit0', delay=round(rng.uniform(0, 20), 2))
    edited = rng.choice(EDITED) if rng.random() < 0.3 else None
    if edited is not None:
        b.proc('reword', ['hs', 'task', 'update', f'%task:{rng.randint(0, 5)}%', f'args={edited}'], after='submit0',
               delay=round(rng.uniform(0, 20), 2))
    if rng.random() < 0.2:
        b.proc('cancel', ['hs', 'task', 'update', '--cancel', '-R', '--limit', str(rng.choice([1, 3])), '--no-confirm'],
               after='submit0', delay=round(rng.uniform(0, 10), 2))
    queries = {}
    for k in range(rng.choice([4, 8, 12])):
        q, argv = question(rng, lines)
        if edited is not None and rng.random() < 0.25:
            q = {'kind': 'info', 'field': 'args', 'format': None, 'stream': None}
            argv = ['hs', 'task', 'info', b.sc['procs'][[p['name'] for p in b.sc['procs']].index('reword')]['argv'][3], '-x', 'args']
        name = f'ask{k}'
        queries[name] = q
        b.proc(name, argv, after='submit0', delay=round(rng.choice([rng.uniform(0, 15), rng.uniform(0, 40), rng.uniform(40, 80)]), 2))
    b.sc['optional_procs'] = [*queries, 'edit', 'reword', 'cancel', 'client2']
    return b.done(queries=queries)


# ---- what the answer should be -------------------------------------------------------------------

def value_of(row, f):
    """The value as reported: times without trailing zeros, tags as a mapping."""
    v = row[f]
    if v is None:
        return {} if f == 'tag' else None
    if f == 'tag':
        return json.loads(v)
    if f == 'retried':
        return bool(v)
    if f in TIMES:
        return datetime.fromisoformat(v).isoformat(sep=' ')
    return v


def show(v):
    text = json.dumps(v)
    return text[1:-1] if isinstance(v, str) else text


def holds(row, c, resolved):
    f, op, v = c[0], c[1], resolved
    have = row[f]
    if f in TEXT:
        want = None if v.lower() in ('none', 'null') else v
    else:
        want = coerce(v)
        if f == 'retried':
            want, have = int(want), None if have is None else int(have)
    if op == '~':
        return have is not None and re.search(v, have) is not None
    if want is None:
        return (have is None) == (op == '==')
    if have is None:
        return False
    return {'==': have == want, '!=': have != want, '>': have > want, '>=': have >= want, '<': have < want,
            '<=': have <= want}[op]


ALIAS = {'F': lambda s: s is not None and s != 0, 'S': lambda s: s == 0, 'C': lambda s: s is not None,
         'finished': lambda s: s is not None, 'R': lambda s: s is None}


def tagged(row, tags):
    have = json.loads(row['tag']) if row['tag'] else {}
    for k, v in dict(map(tuple, tags)).items():            # the same name twice: the last one counts
        if not v:                                          # any value, but null does not count as one
            if have.get(k) is None:
                return False
            continue
        if k not in have:
            return False
        want = coerce(v)
        if want is None or have[k] is None:
            if want is not have[k]:
                return False
        elif isinstance(want, str) != isinstance(have[k], str) or want != have[k]:
            return False
    return True


def matching(rows, q, resolved):
    out = [r for r in rows.values() if all(holds(r, c, v) for c, v in zip(q['where'], resolved)) and tagged(r, q['tags'])]
    if q['alias']:
        out = [r for r in out if ALIAS[q['alias']](r['exit_status'])]
    return out


def sort_key(row, f):
    v = row[f]
    return (0,) if v is None else (1, v)


def block(r):
    s = {f: show(value_of(r, f)) for f in COLUMNS}
    tags = ', '.join(k if v == '' else f'{k}:{v}' for k, v in value_of(r, 'tag').items())
    took = {f: 'null' if r[f] is None else str(timedelta(seconds=r[f])) for f in ('waited', 'duration')}
    return (f"          id: {s['id']}\n        args: {s['args']}\n     command: {s['command']}\n exit_status: {s['exit_status']}\n"
            f"   submitted: {s['submit_time']}\n   scheduled: {s['schedule_time']}\n"
            f"     started: {s['start_time']} (waited: {took['waited']})\n"
            f"   completed: {s['completion_time']} (duration: {took['duration']})\n"
            f" submit_host: {s['submit_host']} ({s['submit_id']})\n server_host: {s['server_host']} ({s['server_id']})\n"
            f" client_host: {s['client_host']} ({s['client_id']})\n     attempt: {s['attempt']}\n     retried: {s['retried']}\n"
            f"     outpath: {s['outpath']}\n     errpath: {s['errpath']}\n previous_id: {s['previous_id']}\n"
            f"     next_id: {s['next_id']}\n        tags: {tags}\n")


class Garbled(Exception):
    pass


def parse(q, text):
    """The reported records as comparable values; in the same form as `record`."""
    f, fields = q['format'], q['fields'] or None
    if f == 'normal':
        if not text:
            return []
        if not text.startswith('---\n'):
            raise Garbled('no separator')
        return re.split(r'(?<=\n)---\n', text[4:])
    if f == 'json':
        data = json.loads(text)
        if any(list(d) != (fields or list(d)) or len(d) != len(fields or COLUMNS) for d in data):
            raise Garbled(f'fields {[list(d) for d in data][:1]}')
        return [json.dumps(d, sort_keys=True) for d in data]
    if f == 'csv':
        rows = list(csv.reader(io.StringIO(text, newline=''), delimiter=q['delim'] or ','))
        if not rows or rows[0] != (fields or rows[0]) or sorted(rows[0]) != sorted(fields or COLUMNS):
            raise Garbled(f'header {rows[:1]}')
        return [tuple(sorted(zip(rows[0], r, strict=True))) for r in rows[1:]]
    if f == 'table':
        lines = [ln for ln in text.split('\n') if ln[:1] in '│┃' and ln]
        rows = [tuple(c.strip() for c in re.split('[│┃]', ln)[1:-1]) for ln in lines]
        if not rows or list(rows[0]) != (fields or list(rows[0])) or sorted(rows[0]) != sorted(fields or COLUMNS):
            raise Garbled(f'header {rows[:1]}')
        return [tuple(sorted(zip(rows[0], r, strict=True))) for r in rows[1:]]
    if text and not text.endswith('\n'):
        raise Garbled('unfinished line')
    return text.split('\n')[:-1]


def record(q, r, order):
    f, fields = q['format'], q['fields'] or COLUMNS
    if f == 'normal':
        return block(r)
    if f == 'json':
        return json.dumps({c: value_of(r, c) for c in fields}, sort_keys=True)
    if f == 'csv':
        return tuple(sorted((c, v if isinstance(v, str) else json.dumps(v)) for c in fields for v in [value_of(r, c)]))
    if f == 'table':
        return tuple(sorted((c, show(value_of(r, c)).strip()) for c in fields))
    return ('\t' if q['delim'] is None else q['delim']).join(show(value_of(r, c)) for c in order or fields)


def agrees(q, got, rows, resolved):
    """None if the answer is right for this state of the database, otherwise what is wrong."""
    want = matching(rows, q, resolved)
    if q['count']:
        n = len(want) if q['limit'] is None else min(len(want), q['limit'])
        return None if got == n else f'counted {got}, there are {n}'
    n = len(want) if q['limit'] is None else min(len(want), q['limit'])
    if len(got) != n:
        return f'{len(got)} records reported, {n} expected'
    if q['order']:
        want.sort(key=lambda r: sort_key(r, q['order']), reverse=q['desc'])
        k = 0
        while k < n:                     # records of the same rank in any order
            same = [r for r in want if sort_key(r, q['order']) == sort_key(want[k], q['order'])]
            part = Counter(got[k:k + len(same)])
            extra = part - Counter(record(q, r, None) for r in same)
            if extra:
                return f'reported {next(iter(extra))!r} at or after place {k + 1}, expected {record(q, want[k], None)!r}'
            k += len(same)
        return None
    extra = Counter(got) - Counter(record(q, r, None) for r in want)
    if extra:
        near = [record(q, r, None) for r in want][:1]
        return f'reported {next(iter(extra))!r}, expected such as {near}'
    return None


def tag_values(rows, key):
    seen = {}
    for r in rows.values():
        v = (json.loads(r['tag']) if r['tag'] else {}).get(key)
        if v is None:
            continue
        v = int(v) if isinstance(v, bool) else v
        seen[isinstance(v, str), v] = v
    return Counter(str(v) for v in seen.values())


def lines_of(text):
    return text.split('\n')[:-1]


def verdict(run, h, q, p, states):
    """None if the answer is right for one of the states, otherwise what is wrong with it."""
    out = p.stdout.text()
    failed = p.killed_by != 'exit' or p.exit_code != 0
    if q['kind'] == 'info':
        rid = p.argv[3]
        known = [s[rid] for s in states if rid in s]
        if not known or len(known) < len(states):
            if failed and not out.strip():
                return None              # not stored (yet)
        if not known:
            return f'reported on a task that is not stored: {out!r}'
        if q['stream']:
            if q['stream'] == 'stderr' and not failed:
                if out:
                    return f'printed {out!r} to standard output'
                out = p.stderr.text()
            return captured(run, q, out, failed, known)
        if failed:
            return f'ended with {p.exit_code}: {p.stderr.text()[-300:]!r}'
        why = [info(q, out, r) for r in known]
        return None if None in why else why[-1]
    if failed:
        return f'ended with {p.exit_code}: {p.stderr.text()[-300:]!r}'
    if q['kind'] == 'keys':
        have = Counter(lines_of(out))
        want = [Counter({k for r in s.values() for k in (json.loads(r['tag']) if r['tag'] else {})}) for s in states]
        return None if have in want else f'listed {sorted(have.elements())}, there are {sorted(want[-1])}'
    if q['kind'] == 'values':
        have = Counter(lines_of(out))
        want = [tag_values(s, q['key']) for s in states]
        return None if have in want else f'listed {sorted(have.elements())}, there are {sorted(want[-1].elements())}'
    try:
        got = int(out) if q['count'] else parse(q, out)
    except (Garbled, ValueError, KeyError, csv.Error) as exc:
        return f'cannot be read as {q["format"]}: {exc!r} in {out[:300]!r}'
    resolved = q['resolved']
    why = [agrees(q, got, s, resolved) for s in states]
    return None if None in why else why[-1]


def info(q, out, r):
    if q['field'] and q['field'] != 'tag':
        want = show(value_of(r, q['field'])) + '\n'
        return None if out == want else f'printed {out!r}, stored is {want!r}'
    if q['field']:
        tag = value_of(r, 'tag')
        if q['format'] is None:
            want = ', '.join(k if v == '' else f'{k}:{v}' for k, v in tag.items()) + '\n'
            return None if out == want else f'printed {out!r}, stored is {want!r}'
        want = tag
    elif q['format'] is None:
        want = block(r)
        return None if out == want else f'printed {out!r}, stored is {want!r}'
    else:
        want = {f: value_of(r, f) for f in COLUMNS}
    try:
        got = json.loads(out) if q['format'] == 'json' else yaml.safe_load(out)
    except Exception as exc:
        return f'printed {out!r}: {exc}'
    if got == want:
        return None
    diff = {f: (got.get(f), want[f]) for f in want if not isinstance(got, dict) or got.get(f) != want[f]}
    return f'printed (and stored) {diff}'


def captured(run, q, out, failed, known):
    path = {'stdout': 'outpath', 'stderr': 'errpath'}[q['stream']]
    if failed:
        if any(r[path] is None or r['completion_time'] is None for r in known):
            return None if not out.strip() else f'failed and printed {out!r}'
        return f'failed although the task was complete and its output in {known[0][path]}'
    row = known[-1]
    if all(r[path] is None for r in known):
        return f'printed {out!r} for a task without captured output'
    if row['completion_time'] is None:
        return None
    path = next(r[path] for r in known if r[path] is not None)
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        want = f.read()
    got = out.encode('utf-8', 'surrogateescape')
    return None if got == want else f'printed {got[:200]!r}, captured was {want[:200]!r}'


def judge(run):
    queries = run.scenario['meta']['queries']
    h = history(run)
    procs = {n: p for n in queries for p in [run.procs.get(n)] if p is not None and p.started is not None}
    begin, end = {}, {}
    for seq, t, kind, proc, data in run.events:
        if proc in procs:
            if kind == 'proc-start':
                begin.setdefault(proc, seq)
            elif kind == 'proc-end':
                end.setdefault(proc, seq)
            elif kind == 'db' and any(table == 'task' for (table, rid), old, new in data['changes']):
                run.fail('changed', f'{proc} {" ".join(procs[proc].argv[2:])!r} changed tasks', t)
                return
    last = run.events[-1][0] if run.events else 0
    states = {n: [] for n in procs}
    now = {}
    groups = {}
    for seq, t, proc, table, rid, old, new in run.changes():
        if table == 'task':
            groups.setdefault(seq, []).append((rid, new))
    marks = sorted([(s, 1, n) for n, s in begin.items()] + [(seq, 0, None) for seq in groups])
    for seq, what, name in marks:
        if what:
            states[name].append(dict(now))
            continue
        for rid, new in groups[seq]:
            if new is None:
                now.pop(rid, None)
            else:
                now[rid] = new
        for n in procs:
            if n in begin and begin[n] <= seq <= end.get(n, last):
                states[n].append(dict(now))
    asked = 0
    for name, p in procs.items():
        q = dict(queries[name])
        if not p.dead:
            if (run.sim.now - p.started) / NS > 20 + 4 * slack(run.scenario):
                run.fail('hangs', f'{name} {shlex.join(p.argv[1:])} did not end')
                return
            continue
        if q['kind'] == 'search':
            ids = iter([a for a in p.argv if re.match(r'id\s*[!=]=', a)])
            q['resolved'] = [re.sub(r'^id\s*[!=]=\s*', '', next(ids)) if c[0] == 'id' else c[2] for c in q['where']]
        asked += bool(states[name][-1])
        why = verdict(run, h, q, p, states[name])
        if why:
            run.fail(q['kind'], f'{shlex.join(p.argv[1:])}: {why}', p.exit_time)
            return
    run.nontrivial = asked >= 3
    for name, text in tracebacks(run):
        if name not in procs:
            run.fail('traceback', f'{name}: {text}')
