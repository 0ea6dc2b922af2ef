"""C03: completion records describe an execution that really happened."""

from .common import *
from .c01 import client_faults

RULE = ('a run counts when at least two tasks were completed; distinct means a different order in which threads were '
        'scheduled')
ASSUMPTIONS = ['SQLite is the database', 'clocks of hosts differ by a constant']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}

TEMPLATES = ['{}', '{}', '{}', 'wrap {} end', '{/}', '{/-} {+}', '{++}', '{-}', '{.}', '{[0]}', '{[0:]}', '{[0:1]} {}',
             '{[::2]}', "x='{}'", '{ } {}', '{} {}', 'prefix-{}', '{[:1]}|{/}', 'no pattern', '{}-{}-{/}']


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    n = rng.randint(2, 14)
    lines = b.tasks(n, fail=rng.choice([0.3, 0.8]), dur=rng.choice([(0, 0.3), (0, 3.0), (0.5, 12)]), weird=rng.choice([0.3, 1]),
                    bare=rng.choice([0, 0.3]), seq=rng.choice([0, 0.5]), dup=rng.choice([0, 0.4]))
    if rng.random() < 0.3:
        lines = [ln + rng.choice(['', ' /a/b.c/d.tar.gz', ' /x/y/.hid', ' rel/p.', ' a.b c.d', ' /']) for ln in lines]
    hosts = rng.random() < 0.5
    template = rng.choice(TEMPLATES)
    capture = rng.random() < 0.3
    cargs = ['-t', template] if template != '{}' else []
    if capture:
        cargs.append('--capture')
    kind = rng.choice(['plain', 'plain', 'faults'])
    names = service(b, lines, retries=rng.choice([0, 2]), evict=10 if kind == 'faults' else 600, heartrate=1, hosts=hosts,
                    client_args=cargs)
    tags = {}
    for p in b.sc['procs']:
        if p['name'] == 'submit':
            tags = rng.choice([{}, {'group': 'a1'}, {'n': '12345678', 'd': '20240101'}, {'v': '1.5', 'site': 'x-y_z+w'}])
            if tags:
                p['argv'] += ['--tag', *[f'{k}:{v}' for k, v in tags.items()]]
    if hosts:
        b.sc['skew'] = {f'h{k}': round(rng.choice([0, 0, -30.5, 3600, -86400.25, 0.3]), 2) for k in range(0, 5)}
    if kind == 'faults':
        b.client(*cargs, N=2, b=1, w=1, name='steady', server_host='h0' if hosts else None,
                 **({'host': 'hs'} if hosts else {}))
        if hosts:
            b.sc['skew'] = {}
        kind, failed = client_faults(b, rng, names, hosts)
    b.sc['optional_procs'] = names
    return b.done(kind=kind, lines=lines, template=template, capture=capture, tags=tags)


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    run.nontrivial = sum(1 for r in h.rows.values() if r['completion_time']) >= 2
    records_true(run, meta['template'])
    data_unchanged(run)
    for rid, recs in h.execs.items():
        row = h.rows.get(rid)
        if row is None:
            run.fail('unknown-task', f'execution of {recs[0]["command"]!r} belongs to no recorded task')
            return
        want = expected_command(row['args'], meta['template'])
        for r in recs:
            if r['command'] != want:
                run.fail('command', f"{describe(row)} was executed as {r['command']!r}, not {want!r}")
                return
            if r['env'].get('TASK_ARGS') != row['args']:
                run.fail('environment', f"{describe(row)} ran with TASK_ARGS={r['env'].get('TASK_ARGS')!r}")
                return
    for r in h.rows.values():
        if r['completion_time'] is None or launch_failure(r):
            if r['completion_time'] is not None and r['exit_status'] is not None and meta['kind'] == 'plain':
                run.fail('not-started', f"{describe(r)} was reported as not started: {r['exit_status']}")
            continue
        if meta['capture'] != (r['outpath'] is not None) or meta['capture'] != (r['errpath'] is not None):
            run.fail('paths', f"{describe(r)}: output paths {r['outpath']!r}, {r['errpath']!r} with capture "
                     f"{'on' if meta['capture'] else 'off'}")
            break
        if meta['capture']:
            envs = [(x['env'].get('TASK_OUTPATH'), x['env'].get('TASK_ERRPATH')) for x in h.execs.get(r['id'], ())]
            if (r['outpath'], r['errpath']) not in envs:
                run.fail('paths', f"{describe(r)}: recorded {r['outpath']!r}, executed with {envs}")
                break
    if meta['kind'] == 'plain' and server_done(run):
        lines_preserved(run, meta['lines'])
        for r in h.roots():
            got = json.loads(r['tag'])
            if meta['tags'] and {k: str(v) for k, v in got.items()} != meta['tags']:
                run.fail('tags', f"{describe(r)} has tags {got!r}, given {meta['tags']!r}")
                break
