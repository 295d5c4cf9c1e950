"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = 'bounded runtime contracts on the real code'
T = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
checks = []
for p in props:
    t, l, n = T[p]
    checks.append(dict(property=p, quick_cmd='python3 -m vq.check %s' % p, thorough_cmd='VERIF_TIER=thorough python3 -m vq.check %s' % p,
                       evidence_file='evidence/%s.json' % p, technique=t, level=l, level_note=n))
json.dump(dict(version=1, setup_cmd='python3 -m vq.setup', checks=checks, not_applicable=[],
               notes='No hooks: the checks instrument a private copy of the tree. DESIGN.md explains the engine (vq/dv) and the '
                     'runtime contracts (vq/rt); known_findings.txt lists the repaired defects.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
