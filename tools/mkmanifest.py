"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import gen
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = getattr(gen, 'NOTES', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in gen.TABLE:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique='TLA+ specification checked with TLC; trace validation of the real code against it',
                           level='model_checking', level_note=NOTES.get(i, 'every recorded run of the real code is judged by TLC against the specification, on the enumerated and seeded random cases named in DESIGN.md')))
    else:
        na.append(dict(property=i, reason='no check yet'))
json.dump(dict(version=1, setup_cmd='python3 -c "import vlib; print(vlib.build_driver())"', checks=checks, not_applicable=na,
               notes='see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'without')
