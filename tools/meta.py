#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CLAIMED, NA = [], [], []


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CLAIMED.append({'property': id,
                        'quick_cmd': f'python3 check.py --property {id} --tier quick',
                        'thorough_cmd': f'python3 check.py --property {id} --tier thorough',
                        'technique': technique, 'level': 'other', 'level_note': note})


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 --version', 'checks': CLAIMED, 'not_applicable': NA}, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(CLAIMED), 'claimed')
