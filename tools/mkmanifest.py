"""Writes MANIFEST.json from the property list and the property modules that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P20': 'A pure function of one element\'s data: no history, schedule, fault or other party can influence it. Simulation has nothing to decide here beyond ordinary numerical testing (the reference solver of P09/P10 checks the consequences it needs: stiffness of frames and balance of end forces).',
 'P21': 'Asymptotic accuracy of a numerical formulation under mesh refinement: a numerical-analysis statement about a deterministic pure function, without schedule, fault or history.',
 'P22': 'Pointwise calculus on one member\'s segment polynomials: a pure function of one member; what can go wrong through history (stale segments, combination mix-ups) is decided by P01, P03, P04 and P17.',
 'P23': 'Shape and size of a single generated mesh are pure functions of the arguments; the history- and company-dependent part (same geometry whatever else is in the model) is decided by P14.',
 'P25': 'Experimental code path (pushover) that is not finished in this tree: the yield-surface return is incomplete, no documented guarantee exists to hold it to, and nothing in it depends on schedules or faults.',
}
LEVEL = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(ROOT, 'props', i.lower()+'.py')
        if os.path.exists(f):
            import re
            src = open(f).read()
            note = re.search(r'^LEVEL_NOTE = (.*?)\n(?=\S)', src, re.S | re.M)
            note = eval(note.group(1)) if note else DEFAULT
            checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                evidence_file='evidence/%s.json' % i,
                technique='deterministic simulation with fault injection: seeded histories, schedules and faults against the real library, minimised replay on violation',
                level='exploration', level_note=note))
        else: na.append(dict(property=i, reason=NA.get(i, 'Check not built yet.')))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
        notes='No hooks in /repo: every source of nondeterminism has a seam already. Replay a violation with ./check.sh replay FILE.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
DEFAULT = ('Seeded random search: sound for the runs made (every alarm is re-executed, minimised and replayable), no claim about '
           'histories not drawn. Trusts CPython, numpy/scipy and the reference model in sim/.')
main()
