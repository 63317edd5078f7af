#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json from lib/props.py and specs.py.
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/lib']
import props, specs
NA = getattr(props, 'NA', [])
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        a = dict(files=p['files'], mechanism=p['mech'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks = []
for p in props.PROPS:
    if p['id'] in specs.SPECS:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique='bounded symbolic execution of the compiled code (LLVM IR) with z3', level='model_checking', level_note=p['level_note'] + ' Trusted: the stand-ins in /verif/shim and /verif/engine/rt*.cpp, sequential consistency, the stated bounds.'))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=NA)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
miss = [p['id'] for p in props.PROPS if p['id'] not in specs.SPECS and p['id'] not in [n['property'] for n in NA]]
print('properties', len(props.PROPS), 'checks', len(checks), 'missing', miss, 'unlisted', [i for i in specs.SPECS if i not in [p['id'] for p in props.PROPS]])
# DESIGN.md is DESIGN.in.md with the tables of defects and planted bugs filled in
import glob
if os.path.exists(V + '/DESIGN.in.md'):
    d = open(V + '/DESIGN.in.md').read()
    kf = json.load(open(V + '/known-findings.json'))
    d = d.replace('@@FIXED@@', '\n'.join('* ' + x[len('fixed: '):] for x in kf['fixed']))
    rows = []
    for mf in sorted(glob.glob('/verif/seeded/*/meta.json')):
        m = json.load(open(mf)); rows.append('* `%s` (%s): %s Needs: %s' % (mf.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
    d = d.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@EXTRA_ROWS@@\n', open(V + '/DESIGN.rows').read() if os.path.exists(V + '/DESIGN.rows') else '').replace('@@FALSE@@\n', '')
    open(V + '/DESIGN.md', 'w').write(d)
