#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
import props
R = os.path.dirname(os.path.abspath(__file__))
with open(R + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in p['state']]
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 engine/selftest.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']) for p in props.PROPS if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in props.PROPS if p['na']],
         notes='See DESIGN.md. properties.jsonl and this file are generated from props.py by gen.py.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)

# the tables of DESIGN.md
import glob
f = R + '/DESIGN.md'
t = open(f).read().split('<!-- generated -->')[0] + '<!-- generated -->\n'
for p in props.PROPS:
    t += '\n### %s %s\n\n' % (p['id'], p['title'])
    if p['na']:
        t += '*Not applicable:* %s\n' % p['na']
        continue
    t += '* Mechanism: %s\n* Bounds: %s.\n* Decided by: %s\n' % (p['explain'], p['text'], p['technique'])
    t += ''.join('* Driver `drivers/%s` entries `%s`, at least %d%s%s\n' % (d['src'], d.get('match') or 'all', d.get('min', 1), ', with ' + ', '.join(d['repo']) if d.get('repo') else '', ', more in the thorough tier' if d.get('thorough_defs') else '') for d in p['drivers'])
    t += ''.join('* Rule `%s`\n' % r.__name__ for r in p['rules'])
    t += ''.join('* Assumes: %s\n' % a for a in p['assume'])
t += '\n## 4. Planted bugs\n\nEach was written from the statement and the code, passes the tests, has a demonstration, and was caught by the quick check of its property when it was planted.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    t += '| %s | %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'], d.get('caught', d['property']))
t += '\n## 5. Defects repaired in /repo\n\n' + ''.join('* %s\n' % x[7:] for x in json.load(open(R + '/known_findings.json'))['fixed'])
open(f, 'w').write(t)
