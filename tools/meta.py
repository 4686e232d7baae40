#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, qtext, why, files, mechanism[(name,where)], observe)
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None)))
    assert len(title) <= 80, title
    if na: NA[id] = na
    else: NOTE[id] = note
NOTE = {}
exec(compile(open(os.path.join(V, 'tools', 'props.py')).read(), 'props.py', 'exec'))
BASE = ('Every obligation is decided for all values of the symbolic inputs within the stated sizes by symbolic execution of the code compiled from /repo (instrumented LLVM IR) plus algebraic normalisation and Z3; '
        'a violation is only reported after its witness has been replayed on a native ASan build of the same code. Doubles are reasoned about as reals (rounding is outside), transcendental functions through sound identities; sizes, loop bounds and template instances are those listed in DESIGN.md. ')
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --tier thorough' % p['id'],
               technique='bounded symbolic execution of the real compiled code (instrumented LLVM IR) with SMT (Z3) deciding each obligation; counterexamples replayed natively',
               level='model_checking', level_note=BASE + (NOTE[p['id']] or '')) for p in P if p['id'] not in NA]
json.dump(dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hooks in /repo are needed: the checks compile /repo headers and sources directly, with an LLVM pass plugin of /verif/engine.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
