"""writes sa/api.json: the public functions and methods of the package and what each may change (frozen, reviewed by hand)

python3 tools/api.py        run on the reference tree only
"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.check import project            # noqa: E402
from sa.effects import Effects          # noqa: E402
e = Effects(project())
out = {'functions': {}, 'classes': {}}
for cs in e.classes.values():
    for c in cs:
        out['classes'][c.mod + ':' + c.name] = sorted(c.assigned | set(c.attrs) | c.properties)
for (m, q), (n, ci) in sorted(e.funcs.items()):
    parts = q.split('.')
    if any(p.startswith('_') and not p.startswith('__') for p in parts):
        continue
    if len(parts) > (2 if ci is not None else 1) + (parts[-1] in ('setter', 'deleter')):
        continue            # nested functions
    s = e.summaries[m, q]
    ps = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
    roots = set(s.mut) | set(s.unsure)
    out['functions'][m + ':' + q] = {
        'class': (ci.mod + ':' + ci.name) if ci is not None else None,
        'params': ps,
        'mutates': sorted(r[1] for r in roots if r[0] == 'param'),
        'unsure': sorted('%s %s' % r for r in s.unsure if r[0] in ('default', 'classattr', 'global')),
        'changes': sorted({r[1] for r in roots if r[0] == 'field'} | set(s.rebind)),
    }
with open(os.path.join(HERE, 'sa', 'api.json'), 'w') as h:
    json.dump(out, h, indent=1, sort_keys=True)
    h.write('\n')
print(len(out['functions']))
