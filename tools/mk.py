#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below.

The checks that exist (mon/checks/cNN.py) are claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         technique, note, state=()):
    P.append(dict(pid=pid, technique=technique, note=note, row={
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['badidatetime/' + f for f in files],
                    'state': [dict(zip(('name', 'meaning', 'where'), s))
                              for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m))
                                  for m in mech],
                    'observe_at': observe, 'hook_needed': None}}))


IN, HI, CF, SC = 'inputs', 'histories', 'configurations', 'schedules'
exec(open(os.path.join(V, 'tools', 'props.py'), encoding='utf-8').read())

with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
    for p in P:
        assert len(p['row']['title']) <= 80, p['pid']
        fh.write(json.dumps(p['row'], ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    mod = os.path.join(V, 'mon', 'checks', p['pid'].lower() + '.py')
    if not os.path.exists(mod):
        na.append({'property': p['pid'], 'reason': 'no check built yet'})
        continue
    checks.append({
        'property': p['pid'],
        'quick_cmd': f'./check.py {p["pid"]} --tier quick',
        'thorough_cmd': f'./check.py {p["pid"]} --tier thorough',
        'evidence_file': f'evidence/{p["pid"]}.json',
        'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump({'version': 1, 'setup_cmd': './check.py setup',
               'checks': checks, 'not_applicable': na}, fh, indent=1,
              ensure_ascii=False)
    fh.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
