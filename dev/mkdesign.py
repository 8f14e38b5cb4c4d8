"""writes /verif/DESIGN.md: the text of dev/design.md with the tables made from the registry and the seeded changes"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from modan.registry import PROPS
props = [json.loads(x) for x in open(ROOT + '/properties.jsonl')]
na = json.load(open(ROOT + '/not_applicable.json'))
out = []
for p in props:
    i = p['id']
    if i in na:
        out.append('* **%s %s** — not applicable: %s' % (i, p['title'], na[i]))
        continue
    q = PROPS[i]
    out.append('* **%s %s.** Method: %s (`%s`). Covered: %s%s' % (
        i, p['title'], q['technique'], ', '.join('modan/rules/%s.py:%s' % r for r in q['rules']), q['note'],
        ' Assumed: %s.' % '; '.join(q['assumptions']) if q['assumptions'] else ''))
seeds = ['| change | caught by | breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % d))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
text = open(ROOT + '/dev/design.md').read()
text = text.replace('@PROPERTIES@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(seeds))
fixes = ['* ' + x[len('fixed: property='):].strip() for x in open(ROOT + '/known-findings.txt') if x.startswith('fixed:')]
text = text.replace('@FIXES@', '\n'.join(fixes))
open(ROOT + '/DESIGN.md', 'w').write(text)
