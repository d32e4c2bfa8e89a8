#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit; not part of any check)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
M = 'include/xme/math/'
C = 'include/xme/container/'
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, level='proof', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, level=level, na=na))

DV = 'contract-based deductive verification: per-function postconditions on the code compiled from /repo, verification conditions from its LLVM IR discharged by z3'
REALN = ' Floating-point arithmetic is read as exact real arithmetic: rounding, overflow, NaN and infinity are outside the proof. Trusted: clang front end and scalar opt passes, the xvc VC generator, z3, the assumed contracts of libm.'

exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                                'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': q['mech']}}) + '\n')
    from props import registry
    checks = []; na = []
    for q in P:
        if q['id'] in registry.PROPS and not q['na']:
            checks.append({'property': q['id'], 'quick_cmd': 'python3-vt check.py %s quick' % q['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % q['id'],
                           'evidence_file': 'evidence/%s.json' % q['id'], 'technique': q['tech'], 'level': q['level'], 'level_note': q['note']})
        else:
            na.append({'property': q['id'], 'reason': q['na'] or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())" && clang-18 --version >/dev/null && opt-18 --version >/dev/null',
         'checks': checks, 'not_applicable': na,
         'notes': 'no hooks in /repo are needed: the checks compile the unmodified headers; every check is check.py <id>, see DESIGN.md'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'claimed')
main()
