#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, level='other', note=None, na=None, observe=None):
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'observe_at': observe or [], 'hook_needed': None}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                       'technique': technique, 'level': level, 'level_note': note})


CHECKS = []
exec(open(os.path.join(V, 'tools', 'props.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': CHECKS, 'not_applicable': NA,
         'notes': 'All checks are static: they read the LLVM IR / Python syntax trees of /repo\'s current sources; see DESIGN.md.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    print(len(PROPS), 'properties,', len(CHECKS), 'claimed')
