"""Write MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl')) if x.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'{PY} -m sim.runner {i} --tier quick',
            'thorough_cmd': f'{PY} -m sim.runner {i} --tier thorough',
            'technique': 'deterministic simulation with fault injection: the real program (all processes, threads, '
                         'queues, database, child processes) runs under a seeded scheduler with virtual time; '
                         'invariants and history checks decide each run',
            'level': 'exploration',
            'level_note': 'seeded pseudo-random search over schedules, timings, inputs and fault sequences; violations '
                          'are minimised and replay exactly; nothing is proved beyond the runs made; SQLite only',
        })
    else:
        na.append({'property': i, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': f'{PY} -m sim.setup',
     'hooks': {'guard': 'none: the simulator needs no hooks in /repo (it instruments private copies of the modules in memory)',
               'enable': 'true', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
