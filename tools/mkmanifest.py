"""writes MANIFEST.json: every property with a contract file is claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(V + '/contracts/index.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
LEVEL = json.load(open(V + '/tools/levels.json'))
NOTE = {
 'proof': 'Every obligation of the contracts is discharged by z3 on the current source for all inputs, except where the evidence lists a contract as bounded or undecided. Trusted: the symbolic executor in engine/ (Python semantics, library shims), z3, the specifications in contracts/; integers are mathematical as in Python; assumptions are listed per run in the evidence.',
 'other': 'Contracts on the real code; part of their obligations is discharged by z3 for all inputs, the rest is decided by executing the same contracts on the real code over seeded edge-biased inputs within stated bounds (bounded, not proved). The evidence lists which is which.',
}
out = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks: the checks read /repo source and instrument it in memory. bin/check Cnn [-v] [--only=contract name]; bin/replay FILE re-executes a recorded failing input on the real code.'}
for p in props:
    i = p['id']
    if i in idx and i not in NA:
        lv, extra = LEVEL.get(i, ['other', ''])
        out['checks'].append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification: contracts, loop invariants and lemmas over the real Python source, obligations generated by symbolic execution and discharged by z3; counter-models replayed on the real code',
            'level': lv, 'level_note': (NOTE[lv] + ' ' + extra).strip()})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(out['checks']), 'checks', len(out['not_applicable']), 'not applicable')
