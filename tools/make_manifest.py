"""Regenerates /verif/MANIFEST.json from the properties and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
import sys
sys.path.insert(0, HERE)
from dst.budget import LEVEL_RULE, NOTES

NA = {
    'N01': 'A pure function of its arguments: no schedule, clock, I/O, fault or interleaving takes part, so a simulated run would only be input generation.',
    'N02': 'A pure function of a grid in memory; nothing for a simulator to schedule or fail.',
    'N03': 'In-memory array bookkeeping, a pure function of the grid and arguments; nothing to schedule or fail.',
    'N04': 'A pure function of source properties and axes; nothing to schedule or fail.',
    'N05': 'Closed formulae evaluated elementwise (the random options are covered by P18); nothing to schedule or fail.',
    'N06': 'A deterministic numerical inversion in memory; nothing to schedule or fail.',
    'N07': 'Closed formulae; nothing to schedule or fail.',
    'N08': 'A closed formula of the stored geometry; nothing to schedule or fail.',
}
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')) and pid in LEVEL_RULE:
        checks.append({'property': pid,
                       'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % pid,
                       'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % pid,
                       'technique': 'deterministic simulation with fault injection: seeded search over %s' % NOTES[pid][0],
                       'level': LEVEL_RULE[pid][0],
                       'level_note': NOTES[pid][1]})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check built yet.')})
doc = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python tools/setup_check.py',
       'hooks': {'guard': 'SIMIM_DST (not used: the simulator needs no hook in the source; it replaces the environment the package runs in)',
                 'enable': 'nothing to enable: every seam is installed by dst/core.py around the unmodified package', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Every check copies /repo/simim to a scratch directory, imports it there afresh in every simulated session and removes the copy afterwards. Replay files are written to /verif/replays; `check.py --replay FILE` re-executes one.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
