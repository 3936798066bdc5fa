#!/opt/venv/bin/python
"""writes ../MANIFEST.json from mon/props.py; properties without a monitor are listed as not applicable"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
from mon.props import META  # noqa: E402

NA = {}
props = [json.loads(q) for q in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for q in props:
    i = q['id']
    if i in META:
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python run_check.py %s' % i,
                       'thorough_cmd': '/opt/venv/bin/python run_check.py %s --tier thorough' % i,
                       'technique': META[i].get('technique', 'runtime monitoring against a reference oracle'),
                       'level': 'exploration',
                       'level_note': META[i].get('note', META[i]['rule'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'monitor not built yet')})
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import mon.hyl"',
               'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print('%d checks, %d not applicable' % (len(checks), len(na)))
