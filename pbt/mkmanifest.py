"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'default': 'Generated cases plus a fixed corpus against an exact or independently computed oracle; nothing is '
               'proved beyond the cases run.',
}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'pbt', 'props', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid,
                       'thorough_cmd': './check %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                       'technique': 'property-based testing', 'level': 'exploration',
                       'level_note': NOTE.get(pid, NOTE['default'])})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'Checks import casadi_extras from the /repo working tree and need no setup state. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
