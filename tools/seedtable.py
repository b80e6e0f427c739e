"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dirs = sys.argv[1:] or [os.path.join(ROOT, 'seeded')]
rows = []
for d in dirs:
    for k in os.listdir(d):
        m = json.load(open(os.path.join(d, k, 'meta.json')))
        rows.append((m['property'], k, m['needs'].replace('|', '/'), 'yes' if not m.get('missed') else 'NO'))
t = '\n'.join(['| property | planted bug | needs | caught by the quick check |', '|---|---|---|---|']+['| %s | %s | %s | %s |' % r for r in sorted(rows)])
f = os.path.join(ROOT, 'DESIGN.md'); s = open(f).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE', lambda m: '<!-- seeds -->\n'+t+'\n<!-- /seeds -->', s, flags=re.S)
open(f, 'w').write(s)
