"""C25: programs that embed hyper-shell get complete runs, counts and errors."""

import re
from collections import Counter

from .common import *

RULE = ('a run counts when a program used the library at least twice and executed at least two tasks; distinct means a '
        'different order in which threads were scheduled')
ASSUMPTIONS = ['SQLite is the database and does not fail', 'one run at a time in a program',
               'a program gives the runs it embeds the same database']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}

PROGRAM = '''
import io
plan = %(plan)r
local, server, client, submit = (load('hypershell.' + m) for m in ('cluster.local', 'server', 'client', 'submit'))

load('hypershell.data').ensuredb()

class Broken(Exception):
    pass

def produce(s):
    for k, x in enumerate(s['lines']):
        if s['gaps'][k]:
            sleep(s['gaps'][k])
        if s['broken'] == k:
            raise Broken('source')
        yield x
    if s['broken'] == len(s['lines']):
        raise Broken('source')

def source(s):
    if s['source'] == 'list':
        return list(s['lines'])
    if s['source'] == 'tuple':
        return tuple(s['lines'])
    if s['source'] == 'file':
        return open(s['path'])
    return produce(s)

def act(s):
    kind, kw = s['kind'], dict(s['kw'])
    if s.get('failures'):
        kw['redirect_failures'] = s['out'] = io.StringIO()
    if 'address' in kw:
        kw['address'] = tuple(kw['address'])
    if 'bind' in kw:
        kw['bind'] = tuple(kw['bind'])
    if kind in ('local', 'busy'):
        return local.run_local(source(s), **kw)
    if kind == 'local-thread':
        return local.LocalCluster.new(source(s), **kw).join()
    if kind == 'restart':
        return local.run_local(restart_mode=True, **kw)
    if kind == 'serve':
        if s['source'] == 'file':
            return server.serve_file(s['path'], **kw)
        return server.serve_from(source(s), **kw)
    if kind == 'pair':
        a = server.ServerThread.new(source(s), **kw)
        sleep(s['pause'])
        kc = dict(s['client'])
        kc['address'] = tuple(kc['address'])
        b = client.ClientThread.new(**kc)
        try:
            for delay, wait in s['stops']:          # (the program wants another client)
                sleep(delay)
                b.stop(wait=wait)
                b.join()
                note('stopped')
                b = client.ClientThread.new(**kc)
            b.join()
        except (ConnectionError, EOFError):
            a.join()
            if not s['stops']:                      # (the tasks were done before the next client came)
                raise
        return a.join()
    if kind == 'submit':
        if s['source'] == 'file':
            return submit.submit_file(s['path'], **kw)
        return submit.submit_from(source(s), **kw)
    if kind == 'submit-thread':
        a = submit.SubmitThread.new(source(s), **kw)
        a.join()
        return a.task_count

for k, s in enumerate(plan):
    note('begin', k=k)
    try:
        value, error = act(s), None
    except Exception as exc:
        value, error = None, (type(exc).__name__, str(exc))
    note('end', k=k, value=value, error=error, failures=s['out'].getvalue() if s.get('out') else '')
    sleep(s['rest'])
'''
OTHER = '''
queue = load('hypershell.core.queue')
with queue.QueueServer(queue.QueueConfig(host='localhost', port=50004, auth='other')):
    while 'app' not in proc.world.procs or not proc.world.procs['app'].dead:
        sleep(1)
'''
WORKER = '''
client = load('hypershell.client')
while 'app' not in proc.world.procs or not proc.world.procs['app'].dead:
    try:
        client.run_client(address=('localhost', 50003), auth='sesame', **%(kw)r)
        note('round')
        sleep(%(rest)r)
    except (ConnectionError, EOFError) as exc:
        note('again', why=repr(exc))
        sleep(1)
'''


def generate(rng, i, tier):
    b = Builder(rng, calm=rng.random() < 0.3, horizon=1500)
    b.env(SERVER_QUEUESIZE=rng.choice([1, 2, 4]), CLIENT_HEARTRATE=rng.choice([1, 2]), SERVER_EVICT=60)
    steps, retries = [], rng.choice([0, 0, 1, 2])
    n = rng.randint(2, 4)
    busy = rng.random() < 0.12
    if busy:
        b.proc('other', ['script', 'other'], script=OTHER, at=0)
    for k in range(n):
        kind = rng.choice(['local', 'local', 'local-thread', 'serve', 'pair', 'submit', 'submit', 'submit-thread', 'restart',
                           *(['busy', 'local'] if busy else [])])
        if kind == 'restart' and not pending(steps):
            kind = 'local'
        steps.append(step(b, rng, kind, k, retries))
    if pending(steps):
        steps.append(step(b, rng, 'restart', len(steps), retries))
    b.proc('app', ['script', 'app'], script=PROGRAM % {'plan': steps}, **({'upon': ['other', 'listen', 1], 'delay': 1} if busy else {}))
    if any(s['kind'] == 'serve' for s in steps):
        template = rng.choice(['{}', 'far {}'])
        for s in steps:
            if s['kind'] == 'serve':
                s['template'] = template
        for k in range(rng.choice([1, 1, 2])):
            b.proc(f'worker{k}', ['script', 'worker'], script=WORKER % {'rest': 25, 'kw': {
                'num_tasks': rng.choice([1, 2, 4]), 'bundlesize': rng.choice([1, 2, 8]), 'bundlewait': rng.choice([1, 2]),
                'heartrate': 2, 'template': template}}, at=round(rng.uniform(0, 5), 1))
    return b.done(steps=steps)


def pending(steps):
    """Are tasks waiting in the database after these steps?"""
    wait = False
    if not any(s['lines'] and s['broken'] is None and s['kind'] != 'busy' and not s['kw'].get('in_memory') for s in steps):
        return False        # (with an empty database a restarted server waits for tasks to come)
    for s in steps:
        if s['kind'].startswith('submit'):
            wait = wait or bool(s['lines'])
        elif s['broken'] is not None:
            wait = wait or not s['kw'].get('in_memory')
        elif s['kind'] != 'busy' and not s['kw'].get('in_memory'):
            wait = False
    return wait


def step(b, rng, kind, k, retries):
    lines = [] if kind == 'restart' else b.tasks(rng.choice([0, 1, 1, 2, 5, 9, rng.randint(1, 16)]), fail=rng.choice([0, 0.4]),
                                                 dur=rng.choice([(0, 0.3), (0, 2.0), (0, 6.0)]), weird=rng.choice([0, 0.4]))
    s = {'kind': kind, 'lines': lines, 'broken': None, 'rest': rng.choice([0, 0, 0.5, 5, 30]),
         'source': rng.choice(['list', 'tuple', 'file', 'generator', 'generator'])}
    s['gaps'] = [round(rng.choice([0, 0, rng.uniform(0, 4)]), 2) for _ in lines] + [0]
    if kind != 'restart' and s['source'] == 'generator' and rng.random() < 0.2:
        s['broken'] = rng.randint(0, len(lines))
    if s['source'] == 'file':
        s['path'] = b.file(f'tasks{k}.txt', lines)
    s['size'] = size = rng.choice([1, 2, 5, 50])
    wait = rng.choice([1, 1, 2])
    kw = s['kw'] = {'bundlesize': size, 'bundlewait': wait}
    if kind.startswith('submit'):
        if rng.random() < 0.5:
            s['tags'] = kw['tags'] = {'batch': rng.choice([k, f'b{k}', True])}
        if rng.random() < 0.3:
            kw['template'] = 'wrap {}'
        return s
    kw['max_retries'] = retries       # (what failed is tried again by any later run that allows more attempts)
    if rng.random() < 0.2:
        kw['eager'] = True
    if rng.random() < 0.25:
        kw['no_confirm'] = True
    if kind != 'restart' and rng.random() < 0.3:
        kw['in_memory'] = True
        kw['max_retries'] = 0
    if rng.random() < 0.3:
        s['failures'] = True
    template = rng.choice(['{}', '{}', 'pre {}', '{} post'])
    num = rng.choice([1, 1, 2, 4])
    if kind in ('local', 'local-thread', 'restart', 'busy'):
        kw.update(num_tasks=num, template=template, bind=['localhost', rng.choice([50001, 50001, 50002])])
        s['template'] = template
        if kind == 'busy':
            kw['bind'] = ['localhost', 50004]
            s['broken'] = None
    else:
        kw.update(address=['localhost', 50003 if kind == 'serve' else 50001], auth='sesame')
        s['template'] = '{}'
    if kind == 'pair':
        s['template'] = template
        s['pause'] = 5
        s['stops'] = [(round(rng.choice([rng.uniform(0, 1), rng.uniform(0, 6)]), 2), rng.random() < 0.5)
                      for _ in range(rng.choice([0, 0, 1, 2]))]
        s['client'] = {'num_tasks': num, 'template': template, 'address': ['localhost', 50001], 'auth': 'sesame',
                       'bundlesize': rng.choice([1, 2, 8]), 'bundlewait': 1, 'heartrate': 2}
        if 'no_confirm' in kw:
            s['client']['no_confirm'] = True
    return s


def judge(run):
    sc, meta = run.scenario, run.scenario['meta']
    steps = meta['steps']
    h = history(run)
    app = run.procs['app']
    run.nontrivial = len(run.ledger) >= 2
    begin, end = {}, {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'begin' and proc == 'app':
            begin[data['k']] = t
        elif kind == 'end' and proc == 'app':
            end[data['k']] = (seq, t, data)
    for k, s in enumerate(steps):
        if k in begin and k not in end:
            run.fail('hang', f"{name(s, k)} has not returned since {as_s(begin[k])}")
            return
    if not app.dead or app.exit_code != 0:
        run.fail('program', f'the program ended with status {app.exit_code}: {app.crash_text or ''}')
        return
    token = {}
    for k, s in enumerate(steps):
        for line in s['lines']:
            m = re.search(r'@(\w+)@', line)
            token[m.group(1)] = (k, line)
    where = {}                      # token -> step that should run it
    waiting = []
    broken, never, templates = set(), set(), []
    for k, s in enumerate(steps):
        mine = [re.search(r'@(\w+)@', x).group(1) for x in s['lines']]
        if s['broken'] is not None:
            mine = mine[:s['broken']]
            broken.update(mine)
        if s['kind'] == 'busy':
            never.update(mine)
        elif s['kind'].startswith('submit'):
            waiting += mine
        elif s['kw'].get('in_memory'):
            where.update((x, k) for x in mine)
        elif s['broken'] is not None:       # (it may have begun with any of them)
            waiting += mine
            broken.update(waiting)
            templates.append(s['template'])
        else:
            where.update((x, k) for x in waiting + mine)
            waiting = []
    for k, s in enumerate(steps):
        seq, t, data = end[k]
        what = name(s, k)
        if s['kind'] == 'busy':
            if data['error'] is None:
                run.fail('busy', f'{what}: its port was in use and the program saw no error', t)
                return
        elif s['broken'] is not None:
            if data['error'] != ('Broken', 'source'):
                run.fail('error', f"{what}: its source failed and the program saw {data['error'] or data['value']!r}", t)
                return
        elif data['error'] is not None:
            run.fail('raised', f"{what} failed with {data['error']}", t)
            return
        if s['kind'].startswith('submit') and s['broken'] is None and data['value'] != len(s['lines']):
            run.fail('count', f"{what}: {len(s['lines'])} tasks were submitted and {data['value']!r} reported", t)
            return
    ran = Counter()
    for r in run.ledger:
        tok = r['token']
        if tok not in token:
            run.fail('unknown', f"{r['command']!r} was executed and never submitted")
            return
        ran[tok] += 1
        if tok in never:
            run.fail('never', f"{r['command']!r} of a run that could not start was executed")
            return
        k = where.get(tok)
        if k is None or tok in broken:
            continue
        lo, hi = begin[k], end[k][1]
        if not lo <= r['start'] or r['end'] is None or r['end'] > hi:
            run.fail('outside', f"{r['command']!r} was executed from {as_s(r['start'])} to {as_s(r['end'])}; it belongs to "
                     f'{name(steps[k], k)}, which ran from {as_s(lo)} to {as_s(hi)}')
            return
    for tok, k in where.items():
        if tok in broken:
            continue
        s = steps[k]
        fails = sc['specs'][tok]['exit'] != 0
        want = 1 + (s['kw']['max_retries'] if fails else 0)
        if ran[tok] != want:
            run.fail('times', f'{token[tok][1]!r} was executed {ran[tok]} times, not {want} times, by {name(s, k)}')
            return
    # what the database holds
    by = {}
    for r in h.rows.values():
        m = re.search(r'@(\w+)@', r['args'])
        by.setdefault(m and m.group(1), []).append(r)
    for tok in never:
        if tok in by:
            run.fail('stored', f'{token[tok][1]!r} of a run that could not start was stored')
            return
    for tok, k in where.items():
        s, src = steps[k], steps[token[tok][0]]
        if s['kw'].get('in_memory'):
            if tok in by:
                run.fail('stored', f'{token[tok][1]!r} of a run in memory was stored in the database')
                return
            continue
        rows = by.get(tok, [])
        if tok not in broken and not rows:
            run.fail('not-stored', f'{token[tok][1]!r} of {name(src, token[tok][0])} is not in the database')
            return
        line = token[tok][1].strip()
        args = src['kw'].get('template', '{}').replace('{}', line) if src['kind'].startswith('submit') else line
        for r in rows:
            if r['completion_time'] is None:
                run.fail('unfinished', f'{describe(r)} is unfinished after {name(s, k)}')
                return
            if r['args'] != args:
                run.fail('args', f"{r['args']!r} was stored for {args!r}")
                return
            tags = json.loads(r['tag'])
            if tags != src.get('tags', {}):
                run.fail('tags', f"{describe(r)} has the tags {tags}, not {src.get('tags', {})}")
                return
            if r['command'] not in [expected_command(args, x) for x in [s['template'], *(templates if tok in broken else [])]]:
                run.fail('command', f"{describe(r)}: the command was {r['command']!r} (template {s['template']!r})")
                return
    links(run, 99, finished=False)
    for k, s in enumerate(steps):
        if not s.get('failures') or s['broken'] is not None:
            continue
        want = Counter()
        for tok, j in where.items():
            if j == k and tok not in broken and sc['specs'][tok]['exit'] != 0:
                src = steps[token[tok][0]]
                line = token[tok][1].strip()
                args = src['kw'].get('template', '{}').replace('{}', line) if src['kind'].startswith('submit') else line
                want[args] += ran[tok]
        got = Counter(end[k][2]['failures'].split('\n')[:-1])
        got = Counter({x: c for x, c in got.items() if re.search(r'@(\w+)@', x).group(1) not in broken})
        if got != want:
            run.fail('failures', f'{name(s, k)} listed the failed tasks {dict(got)}, not {dict(want)}')
            return


def name(s, k):
    fn = {'local': 'run_local', 'busy': 'run_local on a port in use', 'local-thread': 'LocalCluster', 'restart': 'run_local(restart_mode=True)', 'pair':
          'ServerThread and ClientThread', 'submit-thread': 'SubmitThread'}.get(s['kind'])
    fn = fn or {'serve': 'serve_', 'submit': 'submit_'}[s['kind']] + ('file' if s['source'] == 'file' else 'from')
    return f"call {k + 1}, {fn}{' in memory' if s['kw'].get('in_memory') else ''}"
