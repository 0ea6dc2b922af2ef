"""C04: failed tasks are retried up to the configured limit and no further."""

from .common import *

RULE = ('a run counts when at least one execution failed; distinct means a different order in which threads were '
        'scheduled')
ASSUMPTIONS = ['SQLite is the database', 'one working client remains until the end']
QUICK = {'runs': 1500, 'seconds': 65}
THOROUGH = {'runs': 60000, 'seconds': 1500}


def generate(rng, i, tier):
    b = Builder(rng, horizon=1200)
    n = rng.randint(1, 14)
    retries = rng.choice([0, 1, 1, 2, 3, 5])
    lines = b.tasks(n, fail=rng.choice([0.3, 0.6, 1.0]), dur=rng.choice([(0, 0.2), (0, 1.5)]), seq=rng.choice([0, 0.5, 1.0]),
                    dup=rng.choice([0, 0.3]))
    eager = ['--eager'] if rng.random() < 0.4 else []
    tags = []
    kind = rng.choice(['plain', 'plain', 'plain', 'crash', 'stall', 'restart', 'cluster'])
    if kind == 'cluster':
        b.env(SERVER_QUEUESIZE=rng.choice([1, 2]), SERVER_EVICT=30)
        b.proc('server', ['hs', 'cluster', b.file('tasks.txt', lines), '-N', str(rng.choice([1, 3])), '-b',
                          str(rng.choice([1, 3])), '-w', '1', '-r', str(retries), '-p', PORT, *eager])
        return b.done(kind=kind, attempts=retries + 1, lines=lines, failed=[])
    names = service(b, lines, retries=retries, evict=10 if kind != 'plain' else 600, heartrate=1,
                    server_args=eager, timeout=0, mode='restart' if rng.random() < 0.3 else None)
    for p in b.sc['procs']:
        if p['name'] == 'submit':
            tags = ['--tag', 'group:a1', 'site:x-y.z']
            p['argv'] += tags
    failed = []
    if kind in ('crash', 'stall'):
        b.client(N=2, b=1, w=1, name='steady')
        for nm in names:
            if rng.random() < 0.7:
                failed.append(nm)
                when = at_point(rng, nm, CLIENT_POINTS) if rng.random() < 0.5 else {'at': round(rng.uniform(2, 15), 2)}
                if kind == 'crash':
                    b.fault(do='sigkill', proc=nm, **when)
                else:
                    b.fault(do='freeze', proc=nm, **{'for': round(rng.choice([8, 15, 25]), 1)}, **when)
    elif kind == 'restart':
        # the service dies while retries are under way and a new one is started on the same database
        b.fault(do='crash-host', host='h0', at=round(rng.uniform(2, 25), 2))
        b.server('--restart', '-b', rng.choice([1, 3]), '-r', retries, *eager, name='server2', at=35)
        b.client(N=2, b=1, w=1, name='steady', server='server2', delay=1)
    b.sc['optional_procs'] = names
    return b.done(kind=kind, attempts=retries + 1, lines=lines, failed=failed, tags=bool(tags))


def judge(run):
    meta = run.scenario['meta']
    h = history(run)
    run.nontrivial = any(r['status'] not in (0, None) for r in run.ledger)
    last = 'server2' if 'server2' in run.procs else 'server'
    done = server_done(run, last)
    links(run, meta['attempts'], finished=done)
    if not done:
        p = run.procs[last]
        if p.dead:
            run.fail('server-failed', f'{last} ended with {p.exit_code} ({p.killed_by}): {p.stderr.text()[-400:]!r}')
        elif hang_kind(run) != 'hang-unconfirmed' and (last == 'server' or p.started is not None and len(h.rows)):
            run.fail('unfinished', f'{last} was still running at {run.sim.now / NS:.0f}s')
    if meta['kind'] in ('plain', 'cluster') and done:
        by_program(run, h, meta)
    for r in h.rows.values():
        if r['retried'] and r['next_id'] is None and done:
            run.fail('links', f'{describe(r)} is marked retried but has no successor')
            break
    data_unchanged(run)


def by_program(run, h, meta):
    """Without faults each line is attempted exactly as often as its program fails, within the limit."""
    for root in h.roots():
        chain = h.chain(root)
        for k, row in enumerate(chain):
            last = k == len(chain) - 1
            if row['exit_status'] == 0 and not last:
                run.fail('retried-success', f'{describe(row)} succeeded and was retried')
                return
            if row['exit_status'] != 0 and last and len(chain) < meta['attempts']:
                run.fail('not-retried', f"{describe(row)} failed with {row['exit_status']}; {len(chain)} of "
                         f"{meta['attempts']} attempts made")
                return
            n = len(h.execs.get(row['id'], ()))
            if n != 1:
                run.fail('not-once', f'{describe(row)} was executed {n} times')
                return
    lines_preserved(run, meta['lines'])
