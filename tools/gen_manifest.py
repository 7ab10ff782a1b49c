"""writes MANIFEST.json from the checks in sa/props and properties.jsonl"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
import props

NA = {
    'C21': 'Token boundaries are computed by the unicode-segmentation crate from tables of the Unicode database; '
           'deciding them needs the standard itself as oracle, and no static argument about /repo\'s source bounds it.',
    'C22': 'What number a reader of a locale understands is not stated anywhere in the source; there is no oracle a '
           'static argument could compare the digit collection with (C17 decides the syntactic part).',
}
NOTE = ('Every obligation is discharged on rustc\'s MIR of the current tree for all inputs; trusts rustc\'s MIR '
        'construction, the models of std/core in sa/stdmodel.py and the rules in sa/. Constructs outside the analysed '
        'fragment are reported as OPEN, not as violations.')

checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    i = json.loads(l)['id']
    m = props.META.get(i)
    if m is None:
        na.append({'property': i, 'reason': NA.get(i, 'No static check has been built for it yet.')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 sa/run.py %s --tier quick' % i,
        'thorough_cmd': 'python3 sa/run.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': m.get('technique', 'static analysis: abstract interpretation of MIR to summaries, compared in normal form with the specification'),
        'level': 'other',
        'level_note': m.get('level_note', NOTE),
    })
out = {
    'version': 1,
    'setup_cmd': 'cd mirdump && cargo +nightly build --release --offline',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks read the MIR of /repo\'s current working tree (mirdump, a rustc driver), see DESIGN.md.',
}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
