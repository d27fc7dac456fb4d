"""Writes MANIFEST.json from properties.jsonl."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
fixes = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
checks = []
for p in props:
    i = p['id']
    if i in NOT:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.py {i} --tier quick',
        'thorough_cmd': f'./check.py {i} --tier thorough',
        'technique': 'deterministic simulation with fault injection: seeded search over histories, callbacks and faults against a reference model',
        'level': 'exploration',
        'level_note': 'Samples seeded histories of real curvepy code under a simulated environment; a clean batch is evidence, not proof. '
                      'Trusts the reference model (sim/model.py) and that curves are used from one thread.',
    })
m = {
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: every seam is reached from outside (callbacks, user functions, hash, clock, zone, collector)', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOT.items()],
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
