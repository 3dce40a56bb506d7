"""Builds /verif/seeded/<id>/ from tools/seeds.py and proves each one in a scratch worktree: the patch touches only original lines, the demonstration
passes on /repo and fails with the patch, the repository's tests pass with the patch, and (with --check) what the property's quick check says.

  mkseeds.py [--tests] [--check] [--all-props] [id ...]"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
REPO = os.environ.get('BGV_BASE', '/repo')
BASE = '99d9a56'
PY = '/opt/venv/bin/python'
HEAD = '''import os, shutil, sys, tempfile
import numpy as np
from bathygrid.convenience import create_grid, load_grid


def pts(rows, names='x y z tvu thu', f='f8'):
    names = names.split()
    return np.array([tuple(r[:len(names)]) for r in rows], dtype=[(n, f) for n in names])


def check(ok, what):
    if not ok:
        print('FAILED: ' + what)
        sys.exit(1)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


scratch = tempfile.mkdtemp(prefix='demo_')
Q = dict(progress_bar=False)


def main():
'''
TAIL = '''

if __name__ == '__main__':
    try:
        main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('ok')
'''
SH = '''#!/bin/bash
# run with the repository as the working directory: 0 when the property holds
export PYTHONPATH="$PWD" MPLBACKEND=Agg PROJ_NETWORK=OFF TZ=UTC PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(s, a):
    sid = s['id']
    out = [sid, s['property']]
    wt = tempfile.mkdtemp(prefix='seed_')
    os.rmdir(wt)
    sh(['cp', '-a', REPO, wt])
    try:
        for f, old, new, *nth in s['edits']:
            p = os.path.join(wt, f)
            t = open(p).read()
            parts = t.split(old)
            if len(parts) != 2 and not nth:
                return out + ['EDIT: {} matches of {!r}'.format(t.count(old), old[:60])]
            k = nth[0] + 1 if nth else 1
            open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
        d = sh(['git', '-C', wt, 'diff', '--no-color'])
        # lines that are replaced must be original ones
        cur = None
        for ln in d.stdout.splitlines():
            if ln.startswith('--- a/'):
                cur = ln[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', ln)
            if m:
                n = int(m.group(1)) - 1
                continue
            if cur and not ln.startswith(('---', '+++', 'diff', 'index')):
                if ln.startswith('-') or ln.startswith(' '):
                    n += 1
                if ln.startswith('-'):
                    b = sh(['git', '-C', REPO, 'blame', '-s', '-L{},{}'.format(n, n), '--', cur]).stdout
                    anc = sh(['git', '-C', REPO, 'merge-base', '--is-ancestor', b.split()[0].lstrip('^'), BASE]).returncode
                    if anc:
                        out.append('NOT ORIGINAL: ' + ln)
        dst = os.path.join(VERIF, 'seeded', sid)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, 'patch.diff'), 'w').write(d.stdout)
        open(os.path.join(dst, 'demo.py'), 'w').write(s['pre'].lstrip('\n') + HEAD + '\n'.join('    ' + x if x else '' for x in s['demo'].strip('\n').split('\n')) + '\n' + TAIL)
        open(os.path.join(dst, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        r0 = sh([os.path.join(dst, 'demo.sh')], cwd=REPO, timeout=300)
        r1 = sh([os.path.join(dst, 'demo.sh')], cwd=wt, timeout=300)
        out.append('demo {}/{}'.format(r0.returncode, r1.returncode) + ('' if (r0.returncode == 0 and r1.returncode) else ' <<< BAD ' + (r0.stdout + r0.stderr)[-600:]))
        if not r0.returncode and r1.returncode:
            out.append((r1.stdout + r1.stderr).strip().splitlines()[-1][:110])
        if a.tests:
            t = sh([PY, '-m', 'pytest', 'tests', '-q', '-rA', '--tb=no', '-p', 'no:cacheprovider', '--timeout=300'], cwd=wt,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC', PYTHONPATH=wt))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base if isinstance(base, list) else base.get('stable') or base.get('tests') or base.get('passed')
            ok = {x.split()[1].replace('/', '.').replace('.py::', '::') for x in t.stdout.splitlines() if x.startswith('PASSED ')}
            bad = [x for x in stable if x not in ok]
            out.append('tests {} of {} stable'.format(len(stable) - len(bad), len(stable)) + (' FAIL <<< {}'.format(bad[:5]) if bad else ''))
        if a.check:
            for p in ([s['property']] if not a.all_props else ['C{:02d}'.format(i) for i in range(1, 30)]):
                c = sh([os.path.join(VERIF, 'harness', 'check.sh'), '--property', p, '--tier', 'quick'], env=dict(os.environ, BGV_REPO=wt, VERIF_SEED='1'), cwd=VERIF)
                v = [x for x in c.stdout.splitlines() if 'violate' in x]
                out.append('{} rc={} {}'.format(p, c.returncode, (v or [c.stdout.strip()[-200:]])[0][:200]) + ('' if c.returncode == 1 else ' <<< MISSED'))
        return out
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--check', action='store_true')
    ap.add_argument('--all-props', action='store_true')
    ap.add_argument('-j', type=int, default=0)
    a = ap.parse_args()
    import seeds
    todo = [s for s in seeds.SEEDS if not a.ids or s['id'] in a.ids or any(s['id'].startswith(i) for i in a.ids)]
    with cf.ThreadPoolExecutor(a.j or (1 if a.check else 5)) as ex:
        for r in ex.map(lambda s: one(s, a), todo):
            print(' | '.join(map(str, r)), flush=True)


if __name__ == '__main__':
    main()
