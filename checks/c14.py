"""C14: a task that cannot be started is reported failed and stops nothing else."""

from . import c13
from .common import *

RULE = ('a run counts when at least one task could not be started and another was executed by the same client; distinct '
        'means a different order in which threads were scheduled')
ASSUMPTIONS = ['the client itself keeps running', 'results are taken by the server without delay while the use of the executors '
               'is judged']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}

ERRORS = ['EAGAIN', 'ENOMEM', 'E2BIG', 'EMFILE', 'EACCES', 'ENOEXEC']


def expandable(args, template):
    try:
        expected_command(args, template)
        return True
    except (IndexError, ValueError, KeyError):
        return False


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    b.sc['knobs'].update(db_max=min(b.sc['knobs'].get('db_max', 0.01), 0.05), db_tail_p=0)
    n = rng.choice([rng.randint(2, 10), rng.randint(8, 30)])
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=rng.choice([(0, 0.2), (0.5, 3), (2, 6), (0, 6)]))
    template = rng.choice(['{}', '{}', '{}', '{[0]} {[1]} #{}', '{[2]} #{}', '{nope}', '{[x]} {}', 'do {/-} {}', '{[1:3]}; {}'])
    kinds = set()
    plans = 0
    p = rng.choice([0.15, 0.5])
    for k in range(n):
        if rng.random() > p:
            continue
        r = rng.random()
        if r < 0.6 and '@t' in lines[k]:
            tok = lines[k][lines[k].index('@t'):].split()[0]
            left = rng.choice([1, 1, 2, 100])
            b.sc.setdefault('popen_plan', []).append({'match': tok, 'err': rng.choice(ERRORS), 'left': left})
            plans += left
            kinds.add('popen')
        elif r < 0.85:
            lines[k] += '\0nul'
            kinds.add('nul')
        elif r < 0.9:
            lines[k] += ' ' + 'y' * 140000
            kinds.add('long')
    retries = rng.choice([0, 0, 1, 2])
    size = rng.choice([1, 2, 3, 5, 8])
    b.env(SERVER_QUEUESIZE=64, SERVER_EVICT=600, CLIENT_HEARTRATE=2)
    mode = rng.choice(['file', 'file', 'nodb'])
    args = ['-b', size, '-w', 1]
    nodb = mode == 'nodb'
    if nodb:
        retries = 0
        args += ['--no-db', '--no-confirm', '-f', '%S%/failed.txt']
    else:
        args += ['-r', retries]
    b.server(b.file('tasks.txt', lines), *args)
    clients = {}
    for k in range(rng.choice([1, 1, 2, 3])):
        name = f'client{k + 1}'
        info = {'N': rng.choice([1, 1, 2, 3, 5]), 'to': 'streams'}
        extra, env = ['--no-confirm'] if nodb else [], {}
        if rng.random() < 0.5:
            extra += ['--capture']
            info['to'] = 'capture'
            if rng.random() < 0.6:
                left = rng.choice([1, 2, 3, 8])
                b.sc.setdefault('open_plan', []).append({'path': f'/task/', 'proc': name, 'left': left,
                                                         'err': rng.choice(['ENOSPC', 'EACCES', 'EMFILE', 'EIO'])})
                if rng.random() < 0.5:
                    b.sc['open_plan'][-1]['path'] = rng.choice(['.out', '.err'])
                plans += left
                kinds.add('open')
        if template != '{}':
            extra += ['-t', template]
        info['template'] = template
        if k and rng.random() < 0.3:
            env['HYPERSHELL_TASK_CWD'] = '%S%/nowhere'
            info['broken'] = True
        if rng.random() < 0.1 and not nodb:
            env['HYPERSHELL_EXPORT_NUL'] = 'x'
        b.client(*extra, N=info['N'], b=rng.choice([1, 1, size, 4]), w=rng.choice([1, 1, 3]), env=env,
                 delay=rng.choice([0.1, rng.uniform(0, 3)]))
        clients[name] = info
    if any(c.get('broken') for c in clients.values()):
        kinds.add('cwd')
    if any(not expandable(ln, template) for ln in lines):
        kinds.add('template')
    b.sc['optional_procs'] = sorted(clients)[1:]
    return b.done(mode=mode, attempts=retries + 1, names=clients, lines=lines, template=template, plans=plans,
                  kinds=sorted(kinds))


def reasons(run, row, client, template):
    """Why this task cannot be started by that client, apart from passing faults."""
    info = run.scenario['meta']['names'].get(client, {})
    if info.get('broken'):
        return 'directory'
    if not expandable(row['args'], template):
        return 'template'
    text = expected_command(row['args'], template)
    if '\0' in text or '\0' in row['args']:
        return 'nul'
    if len(text) > 131072:
        return 'too long'
    return None


def judge(run):
    meta = run.scenario['meta']
    template = meta['template']
    h = history(run)
    broken = {}
    for name, info in meta['names'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        if meta['mode'] != 'nodb' and not c13.parallel(run, name, info):
            return
    if meta['mode'] == 'nodb':
        judge_nodb(run, template)
    else:
        all_complete(run)
        executed_once(run)
        by_uuid = {client_uuid(run, c): c for c in meta['names']}
        passing = 0
        for row in h.rows.values():
            ran = h.execs.get(row['id'], ())
            if row['completion_time'] is None:
                continue
            client = by_uuid.get(row['client_id'])
            why = reasons(run, row, client, template)
            if ran:
                if why:
                    run.fail('impossible', f'{describe(row)} was executed although it cannot start ({why})')
                    return
                if launch_failure(row):
                    run.fail('record', f'{describe(row)} was executed and is recorded as not started')
                    return
                continue
            if any(r["client"] == client for r in run.ledger):
                run.nontrivial = True
            if row['exit_status'] in (0, None):
                run.fail('not-failed', f'{describe(row)} could not be started ({why or "fault"}) and is recorded with exit '
                         f'status {row["exit_status"]}')
                return
            if row['client_id'] is None or row['client_host'] is None:
                run.fail('record', f'{describe(row)} could not be started, no client is recorded')
                return
            if not why:
                passing += 1
        if passing > meta['plans']:
            run.fail('given-up', f'{passing} tasks were reported as not started, {meta["plans"]} could not be')
            return
        records_true(run, template)
        lines_preserved(run, meta['lines'])
        links(run, meta['attempts'])
    ended(run, ['server', *[c for c in meta['names'] if c in run.procs]])
    tracebacks(run)


def judge_nodb(run, template):
    """Every line was executed or is listed as failed, whatever could not be started."""
    meta = run.scenario['meta']
    ran = [r for r in run.ledger]
    failed = (run.read_file('failed.txt') or '').split('\n')[:-1]
    need = sorted(ln.strip() for ln in meta['lines'])
    if any(c.get('broken') for c in meta['names'].values()):
        clean = []
    else:
        clean = [ln for ln in need if reasons(run, {'args': ln}, None, template) is None]
    done = [r['env'].get('TASK_ARGS') for r in ran]
    short = [ln for ln in clean if done.count(ln) < clean.count(ln)]
    if len(short) > meta['plans']:
        run.fail('given-up', f'{len(short)} tasks were not executed ({short[:2]!r}), {meta["plans"]} could not be started')
        return
    bad = [r['env'].get('TASK_ARGS') for r in ran if r['status'] not in (0, None)]
    for ln in set(need):
        lost = need.count(ln) - done.count(ln)
        want = lost + bad.count(ln)
        if lost and ran:
            run.nontrivial = True
        if failed.count(ln) != want:
            run.fail('not-failed', f'{ln[:80]!r} was submitted {need.count(ln)} times, executed {done.count(ln)} times, '
                     f'{bad.count(ln)} of them unsuccessfully, and is listed as failed {failed.count(ln)} times')
            return
