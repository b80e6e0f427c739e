"""Writes known_findings.json: open findings (tools/findings.json, if any) and the repaired defects (tools/fixed.txt)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
F = os.path.join(HERE, 'findings.json')
findings = json.load(open(F)) if os.path.exists(F) else []
fixed = ['fixed: property=%s %s %s' % tuple(l.split('|')) for l in open(os.path.join(HERE, 'fixed.txt')).read().splitlines()]
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=findings, fixed=fixed), f, indent=1); f.write('\n')
