"""Regenerates MANIFEST.json and properties.jsonl from tools/props.py and the check modules present."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in props.P:
        f.write(json.dumps(x) + '\n')
checks, na = [], []
for x in props.P:
    i = x['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./run.sh %s --tier quick' % i, thorough_cmd='./run.sh %s --tier thorough' % i,
                           technique=props.TECH.get(i, 'property-based testing (Hypothesis) against a reference model'),
                           level='exploration',
                           level_note=props.NOTE.get(i, 'Generated-input search with shrinking against an explicit oracle; '
                                      'no violation found within the explored cases; not a proof. Trusts the oracle in checks/%s.py.' % i.lower())))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'check not built yet (in progress)')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='Checks run the Python code in /repo in place, and compile the C++ planners of /repo with a driver in a scratch directory; no hooks in /repo are needed.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
