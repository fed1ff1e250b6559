"""writes MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'Specifications in spec/ (TLA+, TLC). No hooks in /repo: its sources are compiled unmodified against the controlled scheduler in rt/.'}
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
                            'technique': registry.TECHNIQUE.get(i, registry.TECH), 'level': 'model_checking', 'level_note': registry.NOTE.get(i, registry.NOTE_RT)})
    else:
        m['not_applicable'].append({'property': i, 'reason': registry.NA.get(i, 'not claimed yet: its check is not built')})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
