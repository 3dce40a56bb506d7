"""Runs TLC and reads what the specifications print."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=1, timeout=600, mem='2g', extra=(), scratch=None, maxops=None):
    """returns (output, states generated, distinct states, depth)"""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    if maxops is not None:   # the same configuration with longer histories
        with open(os.path.join(SPEC, cfg or module + '.cfg')) as f:
            txt = f.read()
        cfg = os.path.join(meta, 'longer.cfg')
        with open(cfg, 'w') as f:
            f.write(re.sub(r'MaxOps = \d+', 'MaxOps = {}'.format(maxops), txt))
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', gc, '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ''
        out = out.decode(errors='replace') if isinstance(out, bytes) else out
        raise TlcError('TLC timed out on {} after {} s: {}'.format(module, timeout, out[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    d = re.search(r'depth of the complete state graph search is (\d+)', out)
    return p.returncode, out, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0, int(d.group(1)) if d else 0


def validate(path, scratch=None, timeout=800, module='TraceBathy'):
    """TLC checks the histories of one ndjson file; returns (mismatches, done, generated, distinct).
    A history that TLC cannot evaluate (a recorded answer of another kind than any the specification knows) is itself a mismatch: the verdict is total."""
    try:
        return validate1(path, scratch, timeout, module)
    except TlcError as e:
        if 'timed out' in str(e) or 'OutOfMemory' in str(e) or not getattr(e, 'evaluation', False):
            raise
        with open(path) as f:
            lines = f.readlines()
        if len(lines) == 1:
            t = json.loads(lines[0])['id']
            return [(t, 1, 'tlc', 'obs.unevaluable')], {t: 1}, 0, 0
        mm, done, gen, dis = [], {}, 0, 0
        for k, part in enumerate((lines[:len(lines) // 2], lines[len(lines) // 2:])):
            p = '{}.{}'.format(path, k)
            with open(p, 'w') as f:
                f.writelines(part)
            try:
                m, d, g, s = validate(p, scratch, timeout, module)
            finally:
                os.remove(p)
            mm, gen, dis = mm + m, gen + g, dis + s
            done.update(d)
        return mm, done, gen, dis


def validate1(path, scratch, timeout, module):
    rc, out, gen, dis, _ = run(module, env={'TRACE': path}, scratch=scratch, timeout=timeout)
    mm, done = [], {}
    for ln in out.splitlines():
        ln = ln.strip().strip('"')
        if ln.startswith('MM|'):
            _, t, i, op, cl = ln.split('|', 4)
            mm.append((t, int(i), op, cl))
        elif ln.startswith('DONE|'):
            _, t, i = ln.split('|')
            done[t] = int(i)
    if rc != 0:
        e = TlcError('TLC failed on {} (exit {}):\n{}'.format(path, rc, out[-3000:]))
        e.evaluation = 'semantic analysis failed' not in out and (rc in (75, 76, 12, 13, 255, 150, 151, 152, 153) or 'TLC threw an unexpected exception' in out or 'evaluat' in out or 'Attempted' in out)
        raise e
    return mm, done, gen, dis
