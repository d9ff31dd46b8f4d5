"""MANIFEST.json from the list of properties (called by props.py)."""
import json, os

NOTE = {
    'default': "Every execution within the stated bounds is run on the real code and compared step by step with an independent reference model; nothing is sampled. Assumes valid UTF-8 input and that behaviour outside of the bounds (longer texts, other characters of the same class) follows the enumerated cases; long texts of every boundary size are enumerated separately.",
}
TECH = {
    'default': "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model (stateless model checking)",
    'bfs': "explicit-state BFS over a reference model, every transition replayed on the real code",
    'M04': "stateless model checking: every outcome of every random draw enumerated under a scripted random source",
    'Y02': "exhaustive enumeration of bounded histories of calls on one shared object against fresh objects",
    'Y03': "stateless model checking: preemption-bounded enumeration of all schedules of the instrumented code under a controlled scheduler",
}
BFS = {'N01', 'N02', 'N03', 'N04', 'N05'}
NOT_YET = os.environ.get('NOT_YET', '').split()

def dump(P, here):
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in NOT_YET:
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i}',
            'thorough_cmd': f'bash check.sh {i}',
            'technique': TECH.get(i) or (TECH['bfs'] if i in BFS else TECH['default']),
            'level': 'model_checking',
            'level_note': NOTE.get(i, NOTE['default']),
        })
    m = {
        'version': 1,
        'setup_cmd': 'bash check.sh setup',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks are committed in /repo: M04 scripts math/rand and Y03 adds scheduling points through build overlays generated from the working tree. check.sh builds the harness against /repo for every run; VERIF_TIER=thorough raises the bounds. Replay a violation with: bash check.sh replay replays/<id>.json',
    }
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
