"""writes /verif/MANIFEST.json from engine/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'engine'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'no check built yet')})
        continue
    cmd = 'python3 engine/run.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd + ' thorough', 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of the MIR and of the LALRPOP grammar of /repo; nothing of /repo is executed. No hooks are needed in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
