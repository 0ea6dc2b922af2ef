"""C13: executors honour the parallelism limit and keep tasks apart."""

from .common import *

RULE = ('a run counts when at least two executions overlapped on one client; distinct means a different order in which '
        'threads were scheduled')
ASSUMPTIONS = ['results are taken by the server without delay while the use of the executors is judged',
               'the files tasks write to are not changed by anybody else']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1200}

VALUES = ['x', '007', '1.10', 'True', 'false', 'null', '', 'a b', '1e5', '-1', 'a=b', "it's", '/usr/bin:/bin', 'é', '{}', 'NaN',
          '0x10', '1_000', ' padded ']
NAMES = ['FOO', 'FOO_BAR', 'PATH_EXTRA', 'A', 'A_B_C', 'OMP_NUM_THREADS', 'LD_X', 'TASK', 'X9', 'CFG_LIST', 'CFG_NUM']

TAGS = ['site', 'group', 'k', 'x_y', 'N', 'z-1']
TAG_VALUES = ['us-west-1', '7', '007', 'true', 'a.b', '', '1.50']


def generate(rng, i, tier):
    b = Builder(rng, horizon=900)
    b.sc['knobs'].update(db_max=min(b.sc['knobs'].get('db_max', 0.01), 0.05), db_tail_p=0)
    n = rng.choice([rng.randint(2, 12), rng.randint(10, 40)])
    durs = rng.choice([(0, 0.2), (0.5, 3), (2, 6), (0, 6)])
    lines = b.tasks(n, fail=rng.choice([0, 0.3]), dur=durs, dup=rng.choice([0, 0, 0.2]))
    for k, (name, spec) in enumerate(b.sc['specs'].items()):
        spec['out'] = [[round(rng.uniform(0, 0.95), 3), rng.choice(['out', 'err']),
                        f'{name}.{j}' + rng.choice(['', ' some text', ' <é>']) + '\n'] for j in range(rng.randint(0, 4))]
    retries = rng.choice([0, 0, 1])
    size = rng.choice([1, 2, 3, 5, 8, 16])
    b.env(SERVER_QUEUESIZE=64, SERVER_EVICT=600, CLIENT_HEARTRATE=2)
    mode = rng.choice(['file', 'restart', 'restart'])
    args = ['-b', size, '-w', 1, '-r', retries]
    hosts = rng.random() < 0.4
    if hosts:
        args += ['-H', '0.0.0.0']
    if mode == 'file':
        b.server(b.file('tasks.txt', lines), *args)
    else:
        rest, last = list(lines), None
        for k in range(rng.choice([1, 2, 3, 4])):
            part, rest = rest[:n // 3 + 1], rest[n // 3 + 1:]
            if not part:
                break
            tags = {rng.choice(TAGS): rng.choice(TAG_VALUES) for _ in range(rng.choice([0, 1, 2, 3]))}
            argv = ['hs', 'submit', b.file(f'tasks{k}.txt', part), '-b', str(rng.choice([4, 50]))]
            if tags:
                argv += ['--tag', *[f'{t}:{v}' if v else t for t, v in tags.items()]]
            b.proc(f'submit{k}', argv, **({'after': last, 'delay': 0.2} if last else {}))
            last = f'submit{k}'
        b.server('--restart', *args, after=last, delay=1)
    exports, cfg = {}, {}
    watch = set(NAMES)
    clients = {}
    for k in range(rng.choice([1, 1, 2, 3])):
        name = f'client{k + 1}'
        N = rng.choice([1, 2, 3, 4, 6, 10])
        extra, env, info = [], {}, {'N': N, 'k': k}
        r = rng.random()
        if r < 0.45:
            extra, info['to'] = [rng.choice(['--capture', '-c'])], 'capture'
        elif r < 0.65:
            extra, info['to'] = ['-o', f'%S%/out{k}', '-e', f'%S%/err{k}'], 'files'
        elif r < 0.75:
            extra, info['to'] = ['-o', f'%S%/out{k}'], 'out'
        else:
            info['to'] = 'streams'
        info['export'] = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            v, x = rng.choice(NAMES), rng.choice(VALUES)
            env[f'HYPERSHELL_EXPORT_{v}'] = info['export'][v] = x
        if rng.random() < 0.4:
            b.sc['files'][f'work{k}/.keep'] = ''
            env['HYPERSHELL_TASK_CWD'] = info['cwd'] = f'%S%/work{k}'
        if rng.random() < 0.2:          # the client was itself started by a task
            env.update(TASK_ID='outer', TASK_ARGS='outer', TASK_COMMAND='outer', TASK_TAG_OUTER='1', TASK_TAG_SITE='outer',
                       TASK_PREVIOUS_ID='outer', TASK_ATTEMPT='9')
            info['nested'] = True
        tmpl = rng.choice(['{}', '{}', '{}', 'nice {}', 'env -i {}; true', '{} > log'])
        if tmpl != '{}':
            extra += ['-t', tmpl]
        info['template'] = tmpl
        kw = {'host': f'h{k + 1}', 'server_host': 'h0'} if hosts else {}
        b.client(*extra, N=N, b=rng.choice([1, 1, size, 2, 4, 50]), w=rng.choice([1, 1, 3]), env=env,
                 delay=rng.choice([0.1, rng.uniform(0, 5)]), **kw)
        clients[name] = info
        if rng.random() < 0.3:
            host = kw.get('host', 'h0')
            b.sc['files'][f'site-{host}/config.toml'] = '[export]\ncfg_list = ["/a", "/b"]\ncfg_num = 3\n'
    for k, info in enumerate(clients.values()):
        if f'site-h{k + 1 if hosts else 0}/config.toml' in b.sc['files']:
            info['export'] = {'CFG_LIST': '/a:/b', 'CFG_NUM': '3', **info['export']}
    b.sc['watch_env'] = sorted(watch)
    if rng.random() < 0.25:
        who = rng.choice(sorted(clients) + ['server'])
        b.fault(do='signal', sig='SIGUSR1', proc=who, at=round(rng.uniform(3, 20), 2))
    b.sc['optional_procs'] = sorted(clients)[1:]
    return b.done(mode=mode, attempts=retries + 1, names=clients, lines=lines)


def text_env(value):
    return 'null' if value is None else 'true' if value is True else 'false' if value is False else str(value)


def check_env(run, r, row, info, p):
    what = f'{describe(row)} executed by {r["client"]}'
    env = r['env']
    cwd = info.get('cwd', run.world.cwd).replace('%S%', run.world.scratch)
    want = {}
    for f in ('id', 'args', 'command', 'attempt', 'previous_id', 'submit_id', 'submit_host', 'server_id', 'server_host',
              'client_id', 'client_host', 'waited'):
        want[f'TASK_{f.upper()}'] = text_env(row[f])
    want['TASK_CWD'] = cwd
    for key, value in json.loads(row['tag']).items():
        want[f'TASK_TAG_{key.upper()}'] = text_env(value)
    for key, value in want.items():
        if env.get(key) != value:
            run.fail('environment', f'{what}: {key} is {env.get(key)!r}, not {value!r}', r['start'])
            return False
    for key in env:
        if key.startswith('TASK_TAG_') and key not in want:
            run.fail('environment', f'{what}: {key}={env[key]!r} is not one of its tags', r['start'])
            return False
    for key in ('TASK_SUBMIT_TIME', 'TASK_SCHEDULE_TIME', 'TASK_START_TIME'):
        stored = row[key[5:].lower()]
        try:
            t = datetime.fromisoformat(env[key]).timestamp()
        except (KeyError, ValueError):
            t = None
        if t is None or stored is None or abs(t - datetime.fromisoformat(stored + '+00:00').timestamp()) > 0.001:
            run.fail('environment', f'{what}: {key} is {env.get(key)!r}, recorded {stored}', r['start'])
            return False
    for key, value in info['export'].items():
        if env.get(key) != value:
            run.fail('exported', f'{what}: {key} is {env.get(key)!r}, exported as {value!r}', r['start'])
            return False
    for key in NAMES:
        if key in env and key not in info['export']:
            run.fail('exported', f'{what}: {key}={env[key]!r} was not exported', r['start'])
            return False
    if r['cwd'] is not None and r['cwd'] != cwd or r['cwd'] is None and 'cwd' in info:
        run.fail('directory', f'{what} in {r["cwd"]}, configured is {cwd}', r['start'])
        return False
    paths = [env.get('TASK_OUTPATH'), env.get('TASK_ERRPATH')]
    if info['to'] == 'capture' and [row['outpath'], row['errpath']] != paths:
        run.fail('environment', f'{what}: paths {paths}, recorded {row["outpath"]}, {row["errpath"]}', r['start'])
        return False
    return True


def parallel(run, name, info):
    """Overlap and use of executors."""
    h, N = history(run), info['N']
    lag = 1.1 + 3 * slack(run.scenario)
    mine = [r for r in run.ledger if r['client'] == name]
    p = run.procs[name]
    marks = []
    accepted = {}
    stop = None
    for seq, t, kind, proc, data in run.events:
        if proc != name:
            continue
        if kind == 'rpc-ok' and data['q'] == 'confirmed' or kind == 'rpc-ok' and data['q'] == 'scheduled' and data['m'] == 'get':
            for rid in carried(data.get('obj')):
                accepted[rid] = t            # later: the confirmation is through
        if kind in ('signal', 'main-return', 'proc-end') and stop is None:
            stop = t
    for r in mine:
        marks.append((r['start'], 1, r))
        if r['end'] is not None:
            marks.append((r['end'], 0, r))
    started = {r['env'].get('TASK_ID'): r['start'] for r in reversed(mine)}
    for rid, t in accepted.items():
        marks.append((t, 2, rid))
    marks.sort(key=lambda m: (m[0], m[1]))
    running, waiting, idle = set(), set(), None
    gone = set()
    for t, what, x in marks:
        if idle is not None and t - idle > lag * NS and (stop is None or stop > idle + lag * NS):
            run.fail('idle', f'{name} ran {len(running)} of {N} tasks at once from {as_s(idle)} to {as_s(t)} while '
                     f'{len(waiting)} accepted tasks were waiting', idle)
            return False
        if what == 1:
            running.add(x['n'])
            waiting.discard(x['env'].get('TASK_ID'))
            gone.add(x['env'].get('TASK_ID'))
            if len(running) > 1:
                run.nontrivial = True
            if len(running) > N:
                run.fail('overlap', f'{name} ran {len(running)} tasks at once, limit {N}: '
                         f'{[run.ledger[k]["command"][:20] for k in sorted(running)]}', t)
                return False
        elif what == 0:
            running.discard(x['n'])
        elif x not in gone:
            row = h.rows.get(x)
            if row is None or not launch_failure(row):
                waiting.add(x)
        if waiting and len(running) < N:
            idle = t if idle is None else idle
        else:
            idle = None
    end = p.exit_time if p.dead else run.sim.now
    if idle is not None and end - idle > lag * NS:
        run.fail('idle', f'{name} ran {len(running)} of {N} tasks at once since {as_s(idle)} while {len(waiting)} accepted '
                 f'tasks were waiting', idle)
        return False
    return True


def emitted(run, r, stream):
    spec = run.world.specs.get(r['token']) or {}
    return [text for frac, s, text in sorted(spec.get('out', ()), key=lambda x: int(x[0] * spec['dur'] * NS)) if s == stream]


def outputs(run, name, info):
    h = history(run)
    p = run.procs[name]
    mine = [r for r in run.ledger if r['client'] == name and r['end'] is not None and not r['signals']]
    if info['to'] == 'capture':
        for r in mine:
            row = h.rows.get(r['env'].get('TASK_ID'))
            if row is None:
                continue
            for stream, key in (('out', 'outpath'), ('err', 'errpath')):
                path = row[key]
                rel = os.path.relpath(path, run.world.scratch) if path else None
                got = run.read_file(rel) if rel else None
                want = ''.join(emitted(run, r, stream))
                if got != want:
                    run.fail('captured', f'{describe(row)}: {key} {path} holds {got!r}, the task wrote {want!r}', r['end'])
                    return False
            if row['outpath'] == row['errpath']:
                run.fail('captured', f'{describe(row)}: both outputs go to {row["outpath"]}', r['end'])
                return False
        seen = {}
        for r in mine:
            for key in ('TASK_OUTPATH', 'TASK_ERRPATH'):
                other = seen.setdefault(r['env'].get(key), (r['n'], key))
                if other != (r['n'], key) and run.ledger[other[0]]['env']['TASK_ID'] != r['env']['TASK_ID']:
                    run.fail('captured', f'{r["env"].get(key)} is used by two tasks', r['start'])
                    return False
        return True
    for stream, rel, used in (('out', f'out{info.get("k", 0)}', info['to'] in ('files', 'out')),
                              ('err', f'err{info.get("k", 0)}', info['to'] == 'files')):
        text = run.read_file(rel) if used else (p.stdout if stream == 'out' else p.stderr).text()
        lines = (text or '').splitlines()
        if used and text is None:
            lines = []
        count = {}
        for ln in lines:
            count[ln] = count.get(ln, 0) + 1
        want = {}
        for r in mine:
            for text in emitted(run, r, stream):
                want[text.strip('\n')] = want.get(text.strip('\n'), 0) + 1
        for ln, c in want.items():
            if count.get(ln, 0) != c:
                run.fail('redirected', f'{name}: {ln!r} was written {c} times to its task\'s std{stream} and is '
                         f'{count.get(ln, 0)} times in {rel if used else "std" + stream + " of the client"}')
                return False
        if used:
            extra = [ln for ln in count if ln not in want]
            if extra and not any(r['end'] is None for r in run.ledger if r['client'] == name):
                run.fail('redirected', f'{name}: {rel} holds {extra[:2]!r}, which no task wrote to its std{stream}')
                return False
    return True


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    for name, info in meta['names'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            continue
        if not parallel(run, name, info):
            return
        for r in run.ledger:
            if r['client'] != name or r['token'] is None:
                continue
            row = h.rows.get(r['env'].get('TASK_ID'))
            if row is None:
                run.fail('environment', f'{r["command"]!r}: TASK_ID {r["env"].get("TASK_ID")} is not a task', r['start'])
                return
            if row['completion_time'] is None:
                continue
            if f'@{r["token"]}@' not in row['args']:
                run.fail('environment', f'{r["command"]!r} ran with the id of {describe(row)}', r['start'])
                return
            if not check_env(run, r, row, info, p):
                return
        if not outputs(run, name, info):
            return
    records_true(run, template=None)
    tracebacks(run)
