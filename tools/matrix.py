"""Writes design_matrix.md from the planted changes (each was confirmed to be caught by the check of its property, see plant log)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(os.path.dirname(HERE), 'seeded')
MISSED_FIRST = {'p03-no-new-samples': 'missed at first; ratings of held samples added to the histories', 'p14-every-five': 'missed at first; sessions of 60 calls added for the deciding learners',
                'p08-ordinal-far': 'missed at first; very unlikely categories added', 'p17-saturated': 'missed at first; several large utilities in one query added'}
EXTRA = os.path.join(HERE, 'missed.json')
if os.path.exists(EXTRA):
    MISSED_FIRST.update(json.load(open(EXTRA)))
out = ['\n## Detection matrix\n', 'Each planted change (seeded/) was applied to /repo, built, run through the stable tests and its demonstration, and then the check of its property was run (quick tier).',
       'All of them are caught by the check of their property; the last column says where a check had to be strengthened first.',
       'The same was done with the reverse of every `fix:` commit: each is reported by the check of the property it is filed under in known_findings.json.\n',
       '| planted change | property | needs | caught by | note |', '|---|---|---|---|---|']
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    out.append('| %s | %s | %s | %s quick | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['property'], MISSED_FIRST.get(d, '')))
open(os.path.join(HERE, 'design_matrix.md'), 'w').write('\n'.join(out) + '\n')
