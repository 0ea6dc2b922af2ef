"""C09: submission stores each input line exactly once, in order and durably."""

import re

from .common import *

RULE = ('a run counts when a submitter read at least two lines; distinct means a different order in which threads were '
        'scheduled')
ASSUMPTIONS = ['SQLite is the database and what it committed is durable',
               'order of the stored submit times is judged only where the clock was not set back meanwhile']
QUICK = {'runs': 1600, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}

TEMPLATES = ['{}', '{}', 'echo {}', 'a {/} b', '{/-}.out', '{[0]} -- {}', 'x{+}y', '{-}', "sh -c '{}'", 'const', '{ }z',
             '{[1:]}', '{.}']
TAGS = [('a', 'a', ''), ('site:b', 'site', 'b'), ('n:7', 'n', 7), ('f:1.5', 'f', 1.5), ('t:true', 't', True),
        ('z:null', 'z', None), ('v:x-1.2_+', 'v', 'x-1.2_+'), ('d:20240101', 'd', 20240101), ('k:2024-01-01', 'k', '2024-01-01'),
        ('naked', 'naked', ''), ('neg:-3', 'neg', -3), ('u:True', 'u', True)]
PATHS = ['/data/in/a.txt', 'b.tar.gz', '/x', 'dir/c.csv more words', './rel/d', '.hidden', '/p q/r.s', 'plain', 'a/b/', 'n.']


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    if rng.random() < 0.3:              # a slow database
        b.sc['knobs'].update(db_max=rng.choice([0.05, 0.3]), db_tail_p=0)
    b.env(LOGGING_LEVEL=rng.choice(['info', 'debug', 'trace']))
    kind = rng.choice(['submit'] * 6 + ['server', 'cluster'])
    subs = []
    for k in range(1 if kind != 'submit' else rng.choice([1, 1, 1, 2, 3])):
        name = f'submit{k + 1}'
        n = rng.choice([0, 1, 2, 5, rng.randint(1, 40), rng.randint(1, 40)])
        lines = []
        template = rng.choice(TEMPLATES) if kind == 'submit' else '{}'
        for j in range(n):
            r = rng.random()
            if kind != 'submit':
                lines.append(f'run @q{k}x{j}@ ' + rng.choice(['', rng.choice(WORDS)]))
            elif r < 0.06 and '[' not in template:
                lines.append(rng.choice(['', '   ', '\t']))
            elif r < 0.3:
                lines.append(rng.choice(PATHS))
            elif r < 0.4:
                lines.append(rng.choice(BARE))
            elif r < 0.5 and lines:
                lines.append(rng.choice(lines))         # the same line twice is two tasks
            else:
                lines.append(f'{rng.choice(WORDS)} {j} {rng.choice(WORDS)}')
        lines = [x.replace('\u2028', '').replace('\u0085', '') if rng.random() < 0.5 else x for x in lines]
        size, wait = rng.choice([1, 2, 3, 8, 50]), rng.choice([1, 1, 2, 5, 10])
        tags = rng.sample(TAGS, rng.choice([0, 0, 1, 3])) if kind == 'submit' else []
        broken = None
        if kind == 'submit':
            if n and rng.random() < 0.06:
                broken = 'template'
                template = rng.choice(['{[9]}', '{=1/0=}', '{nope}'])
            args = ['-t', template] if template != '{}' or rng.random() < 0.2 else []
            if tags:
                args += ['--tag', *[t[0] for t in tags]]
            argv = ['hs', 'submit']
        elif kind == 'server':
            argv, args = ['hs', 'server'], ['-p', PORT, '-k', KEY, '-r', '0']
        else:
            argv, args = ['hs', 'cluster'], ['-p', PORT, '-N', '2', '-r', '0']
        args = ['-b', str(size), '-w', str(wait), *args]
        stdin = rng.random() < 0.6
        kw = {} if k == 0 else {'at': round(rng.uniform(0, 5), 2)}
        if stdin:
            noisy = [rng.choice(['', ' ', '\t ']) + x + rng.choice(['', '  ', '\t']) for x in lines]
            kw['stdin'] = b.feed(noisy, gap=rng.choice([(0, 0.3), (0, 3.0), (0, 30.0)]), burst=rng.choice([0.2, 0.7, 1.0]))
            if rng.random() < 0.5:                     # the source stays open after its last line
                kw['stdin'].append([(kw['stdin'][-1][0] if kw['stdin'] else 0) + rng.choice([5, 40]), ''])
            b.proc(name, [*argv, '-', *args] if rng.random() < 0.8 or kind != 'submit' else [*argv, *args], **kw)
        else:
            b.proc(name, [*argv, b.file(f'in{k}.txt', lines, noise=True), *args], **kw)
        subs.append({'name': name, 'lines': lines, 'template': template, 'tags': {t[1]: t[2] for t in tags},
                     'wait': wait, 'size': size, 'broken': broken, 'stdin': stdin})
    if kind == 'server':
        b.client(N=2, b=1, w=1, upon=['submit1', 'listen', 1])
    r = rng.random()
    if r < 0.3:
        name = rng.choice(subs)['name']
        if rng.random() < 0.7:
            point, most = rng.choice([('db-execute', 30), ('db-execute-done', 30), ('db-commit', 15), ('db-commit-done', 15)])
            when = {'on': [name, point, rng.randint(1, most)]}
        else:
            when = {'at': round(rng.uniform(0.2, 40), 2)}
        b.fault(do=rng.choice(['kill', 'sigkill']) if kind == 'submit' else 'kill', proc=name, **when)
    elif r < 0.4:
        b.fault(do='jump', host='h0', by=rng.choice([-86400, -3600, -30, 30, 3600, 86400]), at=round(rng.uniform(0.1, 30), 2))
    elif r < 0.48:
        b.fault(do='freeze', proc=rng.choice(subs)['name'], at=round(rng.uniform(0.1, 30), 2), **{'for': rng.choice([3, 30])})
    elif r < 0.56 and kind == 'submit':
        b.sc['db_plan'] = [{'proc': rng.choice(subs)['name'], 'op': rng.choice(['execute', 'commit']),
                            'n': rng.randint(1, 40), 'left': rng.choice([1, 3, 1000]),
                            'err': rng.choice(['disk I/O error', 'database or disk is full', 'database is locked'])}]
    return b.done(subs=subs, kind=kind)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    made = {}
    for seq, t, proc, table, rid, old, new in run.changes():
        if table == 'task' and old is None and new is not None and new['previous_id'] is None:
            made.setdefault(proc, []).append((t, new))
        if table == 'task' and new is None:
            run.fail('vanished', f'{describe(old)} disappeared', t)
            return
    frozen = sum(f['for'] for f in run.scenario['faults'] if f['do'] == 'freeze')
    jumped = any(f['do'] == 'jump' and f['by'] < 0 for f in run.scenario['faults'])
    failing = bool(run.scenario.get('db_plan'))
    for s in meta['subs']:
        name = s['name']
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        want = None
        if s['broken']:
            good = []
            if s['template'] == '{[9]}':
                for x in s['lines']:
                    if len(x.split()) < 10:
                        break
                    good.append(x.split()[9])
            want = good
        else:
            want = [expected_command(x.strip(), s['template']).strip() if '{' in s['template'] else s['template']
                    for x in s['lines']]
        rows = made.get(name, [])
        got = [r['args'] for t, r in rows]
        reads = [(t, data['line']) for seq, t, kind, proc, data in run.events
                 if kind == 'stdin' and proc == name and data['line']]
        if s['stdin'] and len(reads) >= 2 or not s['stdin'] and len(s['lines']) >= 2:
            run.nontrivial = True
        if got != want[:len(got)]:
            k = next(j for j, g in enumerate(got) if j >= len(want) or g != want[j])
            run.fail('content', f'{name} stored {got[k]!r} as its task number {k + 1}, the input says '
                     f'{want[k] if k < len(want) else None!r}', rows[k][0])
            return
        for k, (t, r) in enumerate(rows):
            if json.loads(r['tag']) != s['tags']:
                run.fail('tags', f"{name} stored tags {r['tag']} for {describe(r)}, asked for {s['tags']}", t)
                return
            if r['attempt'] != 1 or r['retried'] or r['submit_time'] is None or r['submit_id'] is None or any(
                    r[f] is not None for f in ('schedule_time', 'client_id', 'completion_time', 'exit_status', 'next_id')):
                run.fail('fresh', f'{describe(r)} was not stored as a new task: {r}', t)
                return
            if k and not jumped and r['submit_time'] < rows[k - 1][1]['submit_time']:
                run.fail('order', f"{describe(r)} follows {describe(rows[k - 1][1])} in the input and was submitted at "
                         f"{r['submit_time']}, before {rows[k - 1][1]['submit_time']}", t)
                return
        alive = not p.dead
        killed = p.dead and p.killed_by != 'exit'
        if not killed and not alive and p.exit_code == 0:
            if len(got) != len(want):
                run.fail('count', f'{name} ended with status 0 and stored {len(got)} of {len(want)} tasks')
                return
            if s['broken'] and s['lines']:
                run.fail('no-error', f"{name} ended with status 0 for template {s['template']!r}")
                return
            if meta['kind'] == 'submit':
                said = re.findall(r'INFO.*Submitted (\d+) task', p.stderr.text())
                if said != [str(len(want))]:
                    run.fail('reported', f'{name} stored {len(want)} tasks and reported {said}')
                    return
        elif not killed and not alive and not s['broken'] and not failing:
            run.fail('exit-status', f'{name} ended with status {p.exit_code}: {p.stderr.text()[-300:]!r}')
            return
        elif alive:
            run.fail('hang', f'{name} is still running at {as_s(run.sim.now)} with {len(got)} of {len(want)} tasks stored '
                     f'{tracebacks(run)[:2]}')
            return
        if s['stdin'] and not s['broken'] and not failing:
            limit = s['wait'] + 2 + slack(run.scenario) + frozen + (0 if meta['kind'] == 'submit' and len(meta['subs']) == 1 else 8)
            for k, (t, line) in enumerate(reads):
                end = p.exit_time if p.dead else run.sim.now
                stored = rows[k][0] if k < len(rows) else None
                due = t + int(limit * NS)
                if (stored is None and due < end) or (stored is not None and stored > due):
                    run.fail('late', f"{name} read {line!r} at {as_s(t)} and stored it at {as_s(stored)}, the bundle wait "
                             f"is {s['wait']}s", due)
                    return
