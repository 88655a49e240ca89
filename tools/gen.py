"""writes properties.jsonl and MANIFEST.json from the table below and sa/checks/__init__.py

python3 tools/gen.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks import REGISTRY          # noqa: E402
from tools.props import PROPS           # noqa: E402


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, sort_keys=False))
        assert len(p['title']) <= 80, p['id']
        if p['id'] in REGISTRY:
            assert 'na' not in p, p['id']
            checks.append({
                'property': p['id'],
                'quick_cmd': 'cd /verif && python3 -m sa.run %s quick' % p['id'],
                'thorough_cmd': 'cd /verif && python3 -m sa.run %s thorough' % p['id'],
                'technique': p['technique'], 'level': 'other', 'level_note': p['level'],
            })
        else:
            na.append({'property': p['id'], 'reason': p.get('na', 'no check has been built yet')})
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    assert set(REGISTRY) <= set(ids), set(REGISTRY) - set(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as h:
        h.write('\n'.join(lines) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
        json.dump({'version': 1, 'setup_cmd': 'cd /verif && python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na}, h, indent=1)
        h.write('\n')
    print(len(checks), 'claimed', len(na), 'not applicable')


if __name__ == '__main__':
    main()
