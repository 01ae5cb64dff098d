#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(pid, title, statement, over, text, why, files, mech, observe, hook=False, note=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[os.path.normpath('src/c/' + f) for f in files], mechanism=[dict(name=n, where=os.path.normpath('src/c/' + w)) for n, w in mech],
                               observe_at=observe, hook_needed=None), _note=note))
exec(open(V + '/tools/props_data.py').read())

TECH = 'bounded symbolic execution of the compiled library (LLVM IR, regenerated each run) with an SMT solver deciding every assertion; counterexamples replayed on the native build'
NOTE = ('Every path of the harness within the stated bounds is executed symbolically over the real code and each assertion is decided by the solver '
        'for all values of the symbolic inputs; trusts the engine (validated per run by replaying path samples natively), clang\'s IR, z3 and the modelled libc. ')
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks = []
    for p in P:
        src = open('%s/harness/%s.cc' % (V, p['id'])).read()
        b = ' '.join('Bounds: ' + x + '.' for x in re.findall(r'^// @bound (.*)$', src, re.M)) + ' '.join(' Assumes: ' + x + '.' for x in re.findall(r'^// @assume (.*)$', src, re.M))
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                           technique=TECH, level='model_checking', level_note=NOTE + b + (' ' + p['_note'] if p['_note'] else '')))
    m = dict(version=1, setup_cmd='make -s -j8 -C engine B=/verif/build/engine && python3 check.py warm quick', checks=checks, not_applicable=NA,
             notes='The harness of each property is harness/<id>.cc; see DESIGN.md. /repo carries no hooks.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
main()
