#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: C++ contract harnesses over the real functions, translated via LLVM IR, every obligation discharged by CBMC; callees replaced by their proven contracts'
TRUST = ' Trusted: clang/opt front end, tools/ll2c.py, the model standard library in vstl/ (capacity overruns are failed obligations, never silent), CBMC.'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', technique=TECH, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'observe_at': observe} if observe else {}))),
              dict(property=id, quick_cmd='python3 check.py %s' % id, thorough_cmd='python3 check.py %s --tier thorough' % id, technique=technique, level=level, level_note=note + TRUST)))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump(dict(version=1, setup_cmd='python3 -m py_compile check.py spec.py tools/ll2c.py && clang++-18 --version && cbmc --version',
               checks=[c for _, c in P if c['property'] not in [n['property'] for n in NA]], not_applicable=NA,
               notes='Changes to /repo: only fix: commits (see known-findings.txt); no hooks.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
