"""regenerates MANIFEST.json and known_findings.json from engine/props.py and the tables below"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props as PR
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks = []
for p in sorted(PR.PROPS):
    c = PR.PROPS[p]; n = NOTES[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': n['technique'], 'level': c.get('level', 'proof'), 'level_note': n['note']})
na = [{'property': p, 'reason': NOTES[p]['na']} for p in sorted(NOTES) if 'na' in NOTES[p] and p not in PR.PROPS]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'The AST of the real code is extracted from /repo on every run; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
