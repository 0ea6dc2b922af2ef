"""Forked execution of many runs, minimisation, replay files, evidence, exit codes."""

import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
WALL = 90           # seconds of real time before a run is given up


def warm():
    """Import and compile everything shared by all runs."""
    os.environ['TZ'] = 'UTC'
    time.tzset()
    import sqlalchemy.dialects.sqlite, sqlalchemy.dialects.postgresql, sqlalchemy.ext.declarative  # noqa
    import sqlalchemy.orm.exc, tomlkit, toml, yaml, paramiko, json, csv  # noqa
    import rich.console, rich.table, rich.syntax, pygments.styles, importlib.metadata, ctypes, platform  # noqa
    for m in ('rich.markup', 'rich.text', 'pygments.lexers', 'pygments.formatters', 'sqlalchemy.dialects.sqlite.json'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    from . import loader
    loader.precompile()


class Pool:
    """Runs jobs, each in its own forked process."""

    def __init__(self, judge_of, workers=None, wall=WALL):
        self.judge_of = judge_of
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.wall = wall
        self.active = {}
        self.seq = 0
        self.tag = f'vsim-{os.getpid():08d}'

    def launch(self, job, key):
        self.seq += 1
        scratch = os.path.join(BASE, self.tag, f'r{self.seq % (self.workers * 2):02d}')
        while any(a[3] == scratch for a in self.active.values()):
            self.seq += 1
            scratch = os.path.join(BASE, self.tag, f'r{self.seq % (self.workers * 2):02d}')
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                # a fixed path, so that nothing depends on which slot runs the job
                shutil.rmtree(scratch, ignore_errors=True)
                os.makedirs(scratch)
                gc.disable()
                from . import engine
                sc, decisions, opts = job
                res = engine.execute(sc, scratch, decisions, self.judge_of(sc), **opts)
                data = pickle.dumps(res)
            except BaseException as exc:        # noqa
                import traceback
                data = pickle.dumps({'violations': [], 'error': ''.join(traceback.format_exception(exc))})
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                shutil.rmtree(scratch, ignore_errors=True)
            finally:
                os._exit(code)
        os.close(w)
        self.active[r] = (pid, key, time.monotonic(), scratch, [])

    def poll(self, timeout=1.0):
        """Finished jobs as (key, result)."""
        out = []
        if not self.active:
            return out
        ready, _, _ = select.select(list(self.active), [], [], timeout)
        for r in ready:
            pid, key, t0, scratch, parts = self.active[r]
            data = os.read(r, 1 << 20)
            if data:
                parts.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del self.active[r]
            try:
                res = pickle.loads(b''.join(parts))
            except Exception as exc:     # noqa
                res = {'violations': [], 'error': f'run died without a result: {exc!r}'}
            out.append((key, res))
        now = time.monotonic()
        for r in list(self.active):
            pid, key, t0, scratch, parts = self.active[r]
            if now - t0 > self.wall:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del self.active[r]
                shutil.rmtree(scratch, ignore_errors=True)
                out.append((key, {'violations': [], 'error': None, 'wall_timeout': True}))
        return out

    def run_all(self, jobs):
        """Ordered results for a list of jobs."""
        results = [None] * len(jobs)
        nxt = 0
        done = 0
        while done < len(jobs):
            while nxt < len(jobs) and len(self.active) < self.workers:
                self.launch(jobs[nxt], nxt)
                nxt += 1
            for key, res in self.poll():
                results[key] = res
                done += 1
        return results

    def close(self):
        for r, (pid, key, t0, scratch, parts) in list(self.active.items()):
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.active.clear()
        shutil.rmtree(os.path.join(BASE, self.tag), ignore_errors=True)


def seed_for(prop, base, i):
    return int.from_bytes(hashlib.sha256(f'{prop}/{base}/{i}'.encode()).digest()[:6], 'big')


def scenario_for(check, prop, base, i, tier):
    seed = seed_for(prop, base, i)
    rng = random.Random(f'scenario/{seed}')
    sc = check.generate(rng, i, tier)
    sc.setdefault('prop', prop)
    sc['seed'] = seed
    return sc


def load_known():
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    return out


def same(v, target):
    return v['property'] == target['property'] and v['sig'] == target['sig']


def minimise(pool, check, sc, decisions, target, budget=60.0):
    """Shrink the scenario and the schedule while the same violation remains."""
    t_end = time.monotonic() + budget

    def attempt(cands):
        """The first candidate (in order) that still fails in the same way."""
        for start in range(0, len(cands), pool.workers):
            if time.monotonic() > t_end:
                return None
            part = cands[start:start + pool.workers]
            results = pool.run_all([(c, d, {}) for c, d in part])
            for (c, d), res in zip(part, results):
                if any(same(v, target) for v in res['violations']):
                    return c, d, res
        return None

    best = (sc, decisions)
    # 1. no decisions at all, quiet knobs
    progress = True
    rounds = 0
    while progress and time.monotonic() < t_end and rounds < 6:
        rounds += 1
        progress = False
        # schedule first: drop everything, halves, quarters …
        sc0, dec = best
        keys = sorted(dec)
        if keys:
            hit = attempt([(sc0, {})])
            if hit:
                best, progress = (hit[0], {}), True
            else:
                n = 2
                while n <= max(2, min(len(keys), 64)) and time.monotonic() < t_end:
                    size = max(1, len(keys) // n)
                    cands = []
                    for i in range(0, len(keys), size):
                        drop = set(keys[i:i + size])
                        cands.append((best[0], {k: v for k, v in best[1].items() if k not in drop}))
                    hit = attempt(cands)
                    if hit:
                        best = (hit[0], hit[1])
                        keys = sorted(best[1])
                        progress = True
                        n = max(2, n - 1)
                    else:
                        if size == 1:
                            break
                        n *= 2
        # then the scenario
        while time.monotonic() < t_end:
            cands = [(c, best[1]) for c in shrink(best[0])]
            cands += [(c, {}) for c in shrink(best[0])] if best[1] else []
            hit = attempt(cands)
            if not hit:
                break
            best = (hit[0], hit[1])
            progress = True
    return best


def shrink(sc):
    """Simpler scenarios: fewer faults, plans, tasks, quieter knobs."""
    def with_(**kw):
        c = json.loads(json.dumps(sc))
        c.update(kw)
        return c
    for i in range(len(sc.get('faults', []))):
        yield with_(faults=sc['faults'][:i] + sc['faults'][i + 1:])
    for key in ('write_plan', 'open_plan', 'fs_plan', 'popen_plan', 'db_plan'):
        for i in range(len(sc.get(key, []))):
            yield with_(**{key: sc[key][:i] + sc[key][i + 1:]})
    knobs = sc.get('knobs', {})
    for k, quiet in (('nap_p', 0), ('net_tail_p', 0), ('db_tail_p', 0), ('feeder_tail_p', 0), ('preempt', 0)):
        if knobs.get(k):
            yield with_(knobs={**knobs, k: quiet})
    # tasks: remove input lines when the scenario says where they are and is not tied to them
    for rel in sc.get('shrink_lines', []):
        lines = sc['files'][rel].splitlines(True)
        if len(lines) > 1:
            for i in range(len(lines)):
                files = dict(sc['files'])
                files[rel] = ''.join(lines[:i] + lines[i + 1:])
                yield with_(files=files)
    if sc.get('optional_procs'):
        for name in sc['optional_procs']:
            if any(p['name'] == name for p in sc['procs']):
                yield with_(procs=[p for p in sc['procs'] if p['name'] != name])


def check_module(prop):
    return importlib.import_module(f'checks.{prop.lower()}')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run index, verbose')
    ap.add_argument('--events', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--triage', action='store_true', help='print every violating run')
    ap.add_argument('--traces', action='store_true', help='print index and trace hash of every run')
    args = ap.parse_args(argv)
    sys.path.insert(0, ROOT)
    warm()
    check = check_module(args.prop)
    pool = Pool(lambda sc: check.judge, args.workers)
    try:
        if args.replay:
            return replay(pool, check, args)
        if args.one is not None:
            return one(pool, check, args)
        return batch(pool, check, args)
    finally:
        pool.close()


def show(res, events=True):
    if res.get('events') and events:
        for e in res['events']:
            print(e[:600])
    for name, (code, out, err) in res.get('output', {}).items():
        print(f'--- {name} exit={code}')
        if out:
            print('  stdout:', out[-1500:])
        if err:
            print('  stderr:', err[-4000:])
    print({k: v for k, v in res.items() if k not in ('events', 'output', 'decisions')})


def one(pool, check, args):
    sc = scenario_for(check, args.prop, args.seed, args.one, args.tier)
    print(json.dumps(sc, indent=1)[:6000])
    res = pool.run_all([(sc, None, {'want_events': True})])[0]
    show(res, args.events)
    return 1 if res['violations'] else 0


def replay(pool, check, args):
    with open(args.replay) as f:
        rep = json.load(f)
    dec = {int(k): v for k, v in rep['decisions'].items()}
    res = pool.run_all([(rep['scenario'], dec, {'want_events': True})])[0]
    if args.events:
        show(res)
    if res.get('error'):
        print(res['error'])
        return 2
    hit = [v for v in res['violations'] if same(v, rep['violation'])]
    ok = hit and res['digest'] == rep['digest']
    print(f"replayed {args.replay}: digest {res['digest']} "
          f"({'identical to' if res['digest'] == rep['digest'] else 'DIFFERS from'} the recorded {rep['digest']})")
    for v in res['violations']:
        print(f"  {v['property']} [{v['sig']}] {v['msg']}")
    if hit:
        print(f"VIOLATION property={rep['violation']['property']} replay={args.replay}")
        return 1
    return 0 if ok or not hit else 2


def batch(pool, check, args):
    t0 = time.monotonic()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    runs = args.runs or (check.THOROUGH if tier == 'thorough' else check.QUICK)['runs']
    seconds = args.seconds or (check.THOROUGH if tier == 'thorough' else check.QUICK)['seconds']
    known = [k for k in load_known() if k.get('property') == args.prop and k.get('status') == 'open']
    known_sigs = {k['sig']: k for k in known}
    stats = {'runs': 0, 'sim_s': 0.0, 'switches': 0, 'statements': 0, 'execs': 0, 'nontrivial': 0,
             'stops': {}, 'fired': {}, 'probes': {}, 'wall_timeouts': 0}
    traces, shapes = set(), set()
    found, errors, known_hits = [], [], {}
    samples = []
    nxt = 0
    stopping = False
    while True:
        while not stopping and nxt < runs and len(pool.active) < pool.workers:
            sc = scenario_for(check, args.prop, args.seed, nxt, tier)
            pool.launch((sc, None, {}), nxt)
            nxt += 1
        if not pool.active:
            break
        for key, res in pool.poll():
            if res.get('error'):
                errors.append((key, res['error']))
                if len(errors) >= 5 and not args.keep_going:
                    stopping = True
                continue
            if res.get('wall_timeout'):
                # a machine under load, not a verdict (a run that does not end by itself stops at its statement limit)
                stats['wall_timeouts'] += 1
                if stats['wall_timeouts'] > max(5, 0.2 * nxt):
                    errors.append((key, 'runs exceed their real-time limit'))
                    stopping = True
                continue
            stats['runs'] += 1
            for k in ('sim_s', 'switches', 'statements', 'execs'):
                stats[k] += res[k]
            stats['stops'][res['stop']] = stats['stops'].get(res['stop'], 0) + 1
            for k in ('fired', 'probes'):
                for name, n in res[k].items():
                    stats[k][name] = stats[k].get(name, 0) + n
            if args.traces:
                print(key, res['trace'], res['digest'], len(res['violations']))
            if res['nontrivial']:
                stats['nontrivial'] += 1
                traces.add(res['trace'])
            if len(samples) < 10 and res['nontrivial']:
                samples.append(sample(scenario_for(check, args.prop, args.seed, key, tier), res))
            for v in res['violations']:
                if args.triage:
                    tsc = scenario_for(check, args.prop, args.seed, key, tier)
                    print(key, v['sig'], v['msg'][:260], {k: x for k, x in tsc['meta'].items() if k in (
                        'kind', 'mode', 'size', 'confirm')}, tsc.get('faults'), flush=True)
                if v['sig'] in known_sigs:
                    known_hits[v['sig']] = known_hits.get(v['sig'], 0) + 1
                else:
                    found.append((key, v, res))
                    if not args.keep_going:
                        stopping = True
        if time.monotonic() - t0 > seconds:
            stopping = True
    wall = time.monotonic() - t0
    exit_code = 0
    for k in known:
        # a finding that is listed is announced whether or not this batch happened to hit it
        print(f"KNOWN-FINDING: property={args.prop} {k['what']} [seen {known_hits.get(k['sig'], 0)} times in this batch]")
    reports = []
    if found:
        exit_code = 1
        found.sort(key=lambda x: x[0])
        seen = set()
        for key, v, res in found:
            if v['sig'] in seen:
                continue
            seen.add(v['sig'])
            sc = scenario_for(check, args.prop, args.seed, key, tier)
            dec = res['decisions']
            best = (sc, dec)
            if not args.no_min and len(seen) <= 2:
                best = minimise(pool, check, sc, dec, v, budget=45.0 if len(seen) == 1 else 15.0)
            final = pool.run_all([(best[0], best[1], {})])[0]
            hit = [x for x in final['violations'] if same(x, v)]
            if not hit:
                best = (sc, dec)
                final = pool.run_all([(sc, dec, {})])[0]
                hit = [x for x in final['violations'] if same(x, v)] or [v]
            os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'evidence', 'replays', f"{args.prop}-{len(seen)}.json")
            with open(path, 'w') as f:
                json.dump({'property': args.prop, 'violation': hit[0], 'index': key, 'seed': sc['seed'],
                           'verif_seed': args.seed, 'tier': tier, 'trace': final.get('trace'), 'digest': final.get('digest'), 'scenario': best[0],
                           'decisions': {str(k): x for k, x in sorted(best[1].items())}}, f, indent=1)
            print(f"[{v['sig']}] {hit[0]['msg']}  (run {key}, seed {sc['seed']}, "
                  f"{len(best[1])} schedule decisions, {len(best[0].get('faults', []))} faults)")
            print(f'VIOLATION property={args.prop} replay={path}')
            reports.append(v['sig'])
        if args.keep_going:
            tally = {}
            for key, v, res in found:
                tally.setdefault(v['sig'], []).append(key)
            for sig, keys in tally.items():
                print(f'  {sig}: {len(keys)} runs, first {keys[:8]}')
    elif errors:
        exit_code = 2
    if errors:
        for key, text in errors[:3]:
            print(f'harness problem in run {key}:\n{text}')
    print(f"{args.prop} {tier}: {stats['runs']} runs ({stats['nontrivial']} non-trivial, {len(traces)} distinct "
          f"interleavings) in {wall:.1f} s; {stats['sim_s']:.0f} simulated s; {stats['execs']} executions; "
          f"stops {stats['stops']}; faults {stats['fired']}; probes {stats['probes']}; errors {len(errors)}")
    if not args.no_evidence:
        evidence(check, args, tier, stats, traces, samples, wall, found, known_hits, errors)
    return exit_code


def sample(sc, res):
    """One explored case, written out."""
    cmds = '; '.join(f"{p['name']}: {' '.join(p['argv'])}" if p.get('argv') else f"{p['name']}: script"
                     for p in sc['procs'])
    return (f"seed {sc['seed']}: {cmds} | faults {json.dumps(sc.get('faults', []))} | knobs {json.dumps(sc.get('knobs', {}))}"
            f" | ended {res['stop']} after {res['sim_s']:.1f} simulated s, {res['execs']} executions, "
            f"{res['switches']} context switches, interleaving {res['trace']}")[:1500]


def evidence(check, args, tier, stats, traces, samples, wall, found, known_hits, errors):
    per_hour = int(stats['runs'] / wall * 3600) if wall else 0
    data = {
        'property': args.prop, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['runs'],
            'distinct_nontrivial': len(traces),
            'rule': check.RULE,
            'samples': samples or ['none'],
            'seeds_per_hour': per_hour,
            'simulated_seconds': round(stats['sim_s'], 1),
            'simulated_seconds_per_real_second': round(stats['sim_s'] / wall, 1) if wall else 0,
            'task_executions': stats['execs'],
            'context_switches': stats['switches'],
            'statements': stats['statements'],
            'faults_fired': stats['fired'],
            'probes': stats['probes'],
            'run_endings': stats['stops'],
            'wall_timeouts': stats['wall_timeouts'],
            'known_findings_seen': known_hits,
            'real_components': 'all of /repo/src/hypershell, cmdkit, stdlib threading/queue/logging/argparse, '
                               'SQLAlchemy, SQLite, tomlkit',
            'stub_components': 'OS threads (greenlets), clocks, multiprocessing queues and manager transport, '
                               'child processes, ssh and launchers, signals, sockets, file descriptors of opened files, '
                               'random/uuid/secrets sources',
        },
        'wall_s': round(wall, 2),
        'violations': len({(k, v['sig']) for k, v, _ in found}),
        'assumptions': check.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{args.prop}.json'), 'w') as f:
        json.dump(data, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
