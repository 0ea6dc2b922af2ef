"""Debug aid: the history of the tasks a run left open, and what the threads were waiting in at the end."""
import json
import sys
import traceback
import shutil

from . import runner


def main():
    prop, i = sys.argv[1], int(sys.argv[2])
    runner.warm()
    check = runner.check_module(prop)
    from . import engine
    sc = runner.scenario_for(check, prop, int(sys.argv[3]) if len(sys.argv) > 3 else 1, i, 'quick')
    scratch = '/dev/shm/vsim-inspect/r00'
    shutil.rmtree('/dev/shm/vsim-inspect', ignore_errors=True)
    import os
    os.makedirs(scratch)

    def judge(run):
        from checks import common
        h = common.history(run)
        print('meta', {k: v for k, v in sc['meta'].items() if k != 'lines'}, 'faults', sc['faults'])
        print('env', sc['env'])
        for p in sc['procs']:
            print(' ', p['name'], ' '.join(p['argv']))
        ids = [r['id'] for r in h.rows.values() if r['completion_time'] is None]
        print('open', len(ids), 'of', len(h.rows))
        for rid in ids[:4]:
            print('====', rid, h.rows[rid]['args'])
            for seq, t, kind, proc, data in run.events:
                text = repr(data)
                if kind == 'db':
                    for (table, r), old, new in data['changes']:
                        if r == rid:
                            diff = {k: (None if old is None else old[k], new and new[k]) for k in (new or old)
                                    if old is None or new is None or old[k] != new[k]}
                            print(f'  {seq} {t / 1e9:.4f} db {proc} {diff}')
                elif rid in text:
                    print(f'  {seq} {t / 1e9:.4f} {kind} {proc} {text[:200]}')
        for cid, lst in h.client_changes.items():
            for seq, t, proc, old, new in lst:
                print(f'  client {cid[:8]} {t / 1e9:.3f} {[new[k] for k in ("connected_at", "disconnected_at", "evicted")]}')
        for p in run.procs.values():
            print('proc', p.name, p.killed_by, p.exit_code, p.exit_time, 'uuid', common.client_uuid(run, p.name))
        for t in run.sim.keep:
            if getattr(t, 'proc', None) is not None and not t.proc.dead and t.state != 'dead':
                print('--- thread', t.proc.name, t.name, t.state)
                g = getattr(t, 'g', None) or getattr(t, 'glet', None) or getattr(t, 'greenlet', None)
                if g is not None and g.gr_frame is not None:
                    st = traceback.extract_stack(g.gr_frame)
                    for f in st:
                        if 'hypershell' in f.filename or 'hypershell' in (f.name or ''):
                            print('     ', f.filename[-40:], f.lineno, f.name)
        check.judge(run)

    res = engine.execute(sc, scratch, None, judge, want_events=True)
    print(res['error'], res['violations'])
    for name, (code, out, err) in res.get('output', {}).items():
        print('---', name, code, err[-1500:])
    shutil.rmtree('/dev/shm/vsim-inspect', ignore_errors=True)


if __name__ == '__main__':
    main()
