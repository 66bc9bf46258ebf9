#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (each was confirmed to be reported by the quick check of its property)"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append('`%s` (%s)' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/')))
text = '| check | changes it reports (what they need) |\n|---|---|\n' + ''.join('| %s | %s |\n' % (p, '; '.join(v)) for p, v in sorted(rows.items()))
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + text + '<!-- /seeds -->', t, flags=re.S)
open(p, 'w').write(t)
print(sum(map(len, rows.values())), 'changes')
