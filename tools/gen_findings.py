import os
import subprocess
M = dict(l.split(None, 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines())
C = {'builtin int': 'C21', 'shoalest gridding takes': 'C05', 'flush tile count': 'C09', 'bring back emptied': 'C09', 'update regridding only': 'C07', 'keep layers apart': 'C14',
     'last cell boundary': 'C15', 'compare both dimensions': 'C16', 'density nodata value must': 'C16', 'backscatter setting': 'C23', 'existing tile mask': 'C03', 'relative to the grid origin': 'C02',
     'drop resolutions': 'C13', 'neighbor points of': 'C24', 'skip tiles without': 'C16', 'leave the coordinate system': 'C19', 'refuse data without': 'C19', 'refuse gridding an empty': 'C20',
     'attribution of the source': 'C26', 'single tile': 'C16', 'clear the folder': 'C10', 'density point queries': 'C15', 'not gridded yet': 'C14', 'csv export gives': 'C18', 'container queries': 'C27',
     'trimmed layers are': 'C14', 'chunk iteration uses': 'C16', 'refuse point sets with other': 'C19', 'mean depth is zero': 'C12', 'same border soundings': 'C28', 'layers of a single source': 'C22', 'remembers the parameters': 'C28',
     'unknown auto_resolution_mode': 'C20', 'points have no uncertainty': 'C20', 'bathycube is not installed': 'C20', 'box of all the layers': 'C10', 'geotransforms keep the coordinates': 'C17', 'hands its tiles to the cluster anew': 'C11', 'fitted with offsets': 'C25',
     'vertical CRS of a BAG': 'C17', 'other_constraints reaches': 'C17'}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w') as f:
    f.write('# Genuine defects found in bathygrid.  fixed: repaired in /repo, suppresses nothing.  known: recorded, not repaired\n'
            '# (known: property=<id> clause=<pattern> history=<pattern> # what fails).\n')
    for h, s in reversed(list(M.items())):
        if s.startswith('fix:'):
            p = [v for k, v in C.items() if k in s]
            assert len(p) == 1, (s, p)
            f.write('fixed: property={} {} {}\n'.format(p[0], h, s[5:]))
