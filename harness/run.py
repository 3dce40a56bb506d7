"""Entry point of every check: run.py --property C01 (tier and seed from VERIF_TIER / VERIF_SEED)."""
import argparse
import collections
import ctypes
import fnmatch
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

T0 = time.time()


IN_CLUSTER = []


class Timeout(Exception):
    pass


def alarm(sig, frame):
    if IN_CLUSTER:   # a cluster that hangs says nothing about the grid
        import session
        raise session.ClusterTrouble('hangs')
    raise Timeout('the operation did not come back')


def script(prop, job, seed, idx, payload=None):
    """history number idx of a job (payload: the path through the transition graph of the specification)"""
    import gen
    import props
    import tours
    prof = [j for j in props.PROPS[prop]['jobs'] if j[0] == job][0]
    rng = random.Random('{}-{}-{}-{}'.format(prop, job, seed, idx))
    if prof[4].get('folder'):
        import folder
        return (folder.concrete(payload, rng, prof[1]) if payload is not None else folder.build(rng, prof[1])) + (prof[4],)
    if payload is not None:
        return tours.concrete(payload, rng, prof[1]) + (prof[4],)
    return gen.History(rng, prof[1]).build() + (prof[4],)


def module(prop):
    """the trace specification that decides a property"""
    import props
    return props.PROPS[prop].get('trace', 'TraceBathy')


def no_estimator():
    """this process goes on without the stand-in for bathycube: an installation that lacks the optional package"""
    sys.path[:] = [p for p in sys.path if os.path.basename(p.rstrip('/')) != 'standin']
    for m in [m for m in sys.modules if m.split('.')[0] in ('bathygrid', 'bathycube', 'session')]:
        del sys.modules[m]
    import session  # noqa: F401


class Clients:
    """dask clusters for the parallel histories: worker threads in this process (1 to 4 of them, one cluster per process, each task delayed by a random time,
    so that tasks finish in any order), or worker processes"""

    def __init__(self, kind, scratch, n):
        self.kind, self.scratch, self.made, self.n = kind, scratch, {}, n

    def get(self):
        import logging
        from dask.distributed import Client
        n = 2 if self.kind == 'procs' else self.n
        if n not in self.made:
            self.made[n] = Client(n_workers=n, threads_per_worker=1, processes=self.kind == 'procs', dashboard_address=None, silence_logs=logging.CRITICAL, local_directory=self.scratch)
            if self.kind != 'procs':
                import bathygrid.bgrid as bg
                fn = getattr(bg, '_gridding_parallel', None)
                if fn is not None and not hasattr(fn, '__wrapped__'):
                    import functools

                    @functools.wraps(fn)
                    def late(*args, **kw):
                        time.sleep(random.choice([0, 0, .002, .01, .02]))
                        return fn(*args, **kw)
                    bg._gridding_parallel = late
        return self.made[n]

    def close(self):
        for c in self.made.values():
            c.close()
            c.cluster.close()


def record(prop, job, seed, idx, clients=None, payload=None):
    import session
    cfg, ops, twins, opt = script(prop, job, seed, idx, payload)
    if opt.get('dask') and clients is None:
        clients = Clients(opt['dask'], None, 3)
    client = clients.get() if opt.get('dask') else None
    kind = session
    if opt.get('folder'):
        import folder as kind

    def run():
        if opt.get('pair'):   # next to another history: another one of the same kind, or the same one again
            rng = random.Random('pair-{}-{}-{}-{}'.format(prop, job, seed, idx))
            if rng.random() < .5:
                c2, o2, t2, _ = script(prop, job, seed, idx + 100000)
            else:   # in the same places, under the same names, at other times, with the same values or others
                c2, t2, d = cfg, twins, rng.choice([0, 1000])
                o2 = [dict(op, pts=[[p[0], p[1], p[2] + d] + list(p[3:]) for p in op['pts']]) if 'pts' in op else op for op in ops]
            return session.Pair(session.Session('{}:{}:{}'.format(job, seed, idx), cfg, ops, twins, client=client, reload_alt=opt.get('reload_alt')),
                                session.Session('other', c2, o2, t2, client=client, reload_alt=False), [rng.random() < .5 for _ in range(40)]).run()
        return kind.Session('{}:{}:{}'.format(job, seed, idx), cfg, ops, twins, client=client, reload_alt=opt.get('reload_alt')).run()
    tr = run()
    for _ in range(3):   # trouble in the cluster that comes again and again has its reason in the code
        if 'lost dependencies' not in tr['cut']:
            return tr
        n = len(tr['ev'])
        tr = run()
        if len(tr['ev']) != n:
            return tr
    session.STRICT.append(1)
    try:
        return run()
    finally:
        session.STRICT.clear()


def tour_paths(args):
    """histories that cover the transition graph of the specification"""
    import tours
    name, n, opt, tier, seed, scratch = args
    g = tours.graph(opt['tour'], scratch, maxops=opt.get('deep') if tier == 'thorough' else None)
    if opt.get('accepted'):
        g = tours.accepted(g)
    paths, cov, tot = tours.walk(g, n, opt.get('len', 14), seed)
    return {'name': name, 'cfg': opt['tour'], 'graph': {k: g[k] for k in ('T', 'S', 'vr', 'pts')}, 'paths': paths, 'covered': cov, 'transitions': tot, 'states': g['states']}


def shard(args):
    """one worker: records its share of the histories, then lets TLC check them"""
    prop, work, scratch, num, deadline = args
    warnings.simplefilter('ignore')
    import dask
    import tlc
    os.environ['BGV_SCRATCH'] = scratch
    signal.signal(signal.SIGALRM, alarm)
    clients = None
    path = os.path.join(scratch, 'traces_{}.ndjson'.format(num))
    n = 0
    count = collections.Counter()
    sample = None
    try:
        if work[0][3] == 'nocube':
            no_estimator()
        if work[0][3] in ('threads', 'procs'):
            sys.stdout.flush()
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)   # what the worker processes print
            IN_CLUSTER.append(1)
            clients = Clients(work[0][3], scratch, 1 + num % 4)
        else:
            dask.config.set(scheduler='synchronous')
        with open(path, 'w') as f:
            for job, seed, idx, _, payload in work:
                if time.time() > deadline:
                    break
                signal.alarm(240)
                tr = record(prop, job, seed, idx, clients, payload)
                signal.alarm(0)
                if tr['cut']:
                    count['histories cut short by the cluster'] += 1
                for e in tr['ev']:
                    count['op.' + e['op'] + ('' if e['ok'] else '.refused')] += 1
                    for q in e['a'].get('qs', []):
                        count['q.' + q['q']] += 1
                    for a in e['alts']:
                        count['alt.' + a['k']] += 1
                    for lf in e['obs']['leaves']:
                        count['leaf observations'] += 1
                if sample is None or (len(tr['ev']) >= 5 and idx == 1):
                    sample = {'id': tr['id'], 'cfg': tr['cfg'], 'events': [describe(e) for e in tr['ev']]}
                f.write(json.dumps(tr) + '\n')
                n += 1
        if n == 0:
            return dict(n=0, mm=[], done={}, gen=0, dis=0, count=count, sample=None, excs={})
        mm, done, g, d = tlc.validate(path, scratch=scratch, module=module(prop))
        excs = {}
        if mm:
            want = {m[0] for m in mm}
            with open(path) as f:
                for ln in f:
                    tr = json.loads(ln)
                    if tr['id'] in want:
                        excs[tr['id']] = [' / '.join(x for x in [e['exc']] + [al['exc'] for al in e['alts']] if x) for e in tr['ev']]
        return dict(n=n, mm=mm, done=done, gen=g, dis=d, count=count, sample=sample, excs=excs)
    finally:
        signal.alarm(0)
        if clients is not None:
            clients.close()
        if os.path.exists(path):
            os.remove(path)


def describe(e):
    a = {k: v for k, v in e['a'].items() if k not in ('ids', 'qs', 'posup', 'mllw')}
    d = {'op': e['op'], 'ok': e['ok'], 'args': a, 'leaves': len(e['obs']['leaves']), 'resolutions': e['obs']['resl']}
    if e['op'] == 'add':
        d['soundings'] = len(e['a'].get('ids', []))
    if 'qs' in e['a']:
        d['queries'] = [{k: v for k, v in q.items() if k not in ('res', 'exc')} for q in e['a']['qs']]
        d['args'] = {}
    return d


def relevant(prop, mm):
    """the mismatches that violate this property"""
    import props
    P = props.PROPS[prop]
    clauses = P['clauses'] + props.LIVE   # a history that cannot go on decides nothing
    by = collections.defaultdict(set)
    for t, i, op, cl in mm:
        by[(t, i)].add((op, cl))
    out = []
    for t, i, op, cl in mm:
        key = op
        c = cl
        if cl.startswith('refused.'):
            key, c = op + '!', cl[8:]
        if P.get('fresh'):
            prev = {x[1][8:] if x[1].startswith('refused.') else x[1] for x in by.get((t, i - 1), ())}
            if c in prev:
                continue
        if op == 'tlc' or any(fnmatch.fnmatch(key + '/' + c, p) for p in clauses) or any(fnmatch.fnmatch(op + '/' + c, p) for p in clauses):
            out.append((t, i, op, cl))
    return out


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property={} '.format(prop)):
                kv = dict(x.split('=', 1) for x in ln.split('#')[0].split()[1:] if '=' in x)
                out.append((kv, ln.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--nomodels', action='store_true')
    ap.add_argument('--job')
    a = ap.parse_args()
    prop = a.property
    os.environ.update(MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC')
    time.tzset()
    scratch = tempfile.mkdtemp(prefix='bgv_run_')
    try:
        return go(a, prop, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, prop):
    import tlc
    import session
    d = json.load(open(a.replay))
    import props
    if any(j[0] == d['job'] and j[4].get('nocube') for j in props.PROPS[d['property']]['jobs']):
        no_estimator()
    tr = record(d['property'], d['job'], d['seed'], d['idx'], payload=d.get('payload'))
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, 'one.ndjson')
        open(p, 'w').write(json.dumps(tr) + '\n')
        mm, done, _, _ = tlc.validate(p, module=module(prop))
    rel = relevant(prop, mm)
    if tr['cut']:
        print('cut short after {} operations: {}'.format(len(tr['ev']), tr['cut']))
    for k, e in enumerate(tr['ev'], 1):
        for x in [e['exc']] + ['{}: {}'.format(al['k'], al['exc']) for al in e['alts'] if al['exc']]:
            if x:
                print('event {} ({}): {}'.format(k, e['op'], x))
    for m in mm:
        print(m, '<-- {}'.format(prop) if m in rel else '')
    return 1 if rel else 0


def go(a, prop, scratch):
    warnings.simplefilter('ignore')
    import props
    import models
    import bathygrid
    import session  # noqa: F401  (imported once, the workers are forked)
    import gen      # noqa: F401
    P = props.PROPS[prop]
    if a.replay:
        return replay(a, prop)
    ncpu = min(8, os.cpu_count() or 2)
    deadline = T0 + (420 if a.tier == 'quick' else 3000)
    stop = T0 + (800 if a.tier == 'quick' else 7200)
    work, dwork = [], []
    tourjobs = []
    for name, prof, nq, nt, opt in P['jobs']:
        if a.job and a.job != name:
            continue
        n = max(1, int((nq if a.tier == 'quick' else nt) * a.scale))
        if opt.get('tour'):
            tourjobs.append((name, n, opt))
            continue
        for i in range(n):
            kind = 'nocube' if opt.get('nocube') else opt.get('dask')
            (dwork if kind else work).append((name, a.seed, i, kind, None))
    # expensive and cheap histories are spread evenly
    random.Random(7).shuffle(work)
    per = ncpu if a.tier == 'quick' else ncpu * max(1, len(work) // 3000)
    shards = [work[k::per] for k in range(per)]
    procs = [w for w in dwork if w[3] == 'procs']
    threads = [w for w in dwork if w[3] == 'threads']
    nocube = [w for w in dwork if w[3] == 'nocube']
    shards += [procs[k::2] for k in range(2)] + [threads[k::6] for k in range(6)] + [nocube[k::2] for k in range(2)]
    shards = [s for s in shards if s]
    ctx = mp.get_context('fork')
    res = []
    model_res = []
    # daemonic pool workers cannot start dask clusters, so plain processes are used
    q = ctx.SimpleQueue()
    pend = list(enumerate(shards))
    pend.sort(key=lambda s: (s[1][0][3] != 'procs', not s[1][0][3]))
    live = {}
    mjobs = [] if a.nomodels else [('model', m) for m in P.get('models', [])]

    def start(num, fn, arg):
        def body():
            os.setpgrp()
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # ends with this process
            try:
                q.put((num, True, fn(arg)))
            except BaseException:
                q.put((num, False, traceback.format_exc()[-6000:]))
            sys.stdout.flush()
            os._exit(0)
        p = ctx.Process(target=body)
        p.start()
        live[num] = p

    todo = [(('t', name), tour_paths, (name, n, opt, a.tier, a.seed, scratch)) for name, n, opt in tourjobs]
    todo += [(('m', m), models.run_model, (m, a.tier, scratch)) for _, m in mjobs] + [(('s', i), shard, (prop, s, scratch, i, deadline)) for i, s in pend]
    errors = []
    tour_res, payloads, opts = [], {}, {j[0]: j[4] for j in P['jobs']}
    while todo or live:
        while todo and len(live) < ncpu:
            num, fn, arg = todo.pop(0)
            start(num, fn, arg)
        if not q.empty():
            num, ok, r = q.get()
            live.pop(num).join()
            if not ok:
                errors.append((num, r))
            elif num[0] == 'm':
                model_res.append(r)
            elif num[0] == 't':
                tour_res.append(r)
                items = [(num[1], a.seed, i, opts[num[1]].get('dask'), dict(r['graph'], path=path)) for i, path in enumerate(r['paths'])]
                payloads.update({(num[1], w[2]): w[4] for w in items})
                k = max(1, min(len(items) // 20, 6 if items and items[0][3] else ncpu * max(1, len(items) // 3000)))
                more = [(('s', 'tour-{}-{}'.format(num[1], i)), shard, (prop, items[i::k], scratch, len(shards) + i, deadline)) for i in range(k) if items[i::k]]
                shards += [items[i::k] for i in range(k) if items[i::k]]
                todo[:0] = more
            else:
                res.append(r)
            continue
        for num, p in list(live.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty():
                    errors.append((num, 'worker ended without an answer (exit {})'.format(p.exitcode)))
                    live.pop(num)
        if time.time() > stop:   # an answer from what there is, rather than none
            for num, p in live.items():
                errors.append((num, 'not finished in time'))
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
            errors += [(t[0], 'not started in time') for t in todo]
            break
        time.sleep(0.02)

    traces = sum(r['n'] for r in res)
    mm = [m for r in res for m in r['mm']]
    done = {}
    count = collections.Counter()
    excs = {}
    for r in res:
        done.update(r['done'])
        count.update(r['count'])
        excs.update(r['excs'])
    if len(done) != traces:
        errors.append(('tlc', '{} histories recorded, {} closed by TLC'.format(traces, len(done))))
    rel = relevant(prop, mm)
    known, shown = [], set()
    for m in list(rel):
        for kv, ln in known_findings(prop):
            if fnmatch.fnmatch(m[3], kv.get('clause', '')) and fnmatch.fnmatch(m[0], kv.get('history', '')):
                rel.remove(m)
                known.append(ln)
                break
    for ln in sorted(set(known)):
        print('KNOWN-FINDING: ' + ln.split('known: ', 1)[1])
    bad_models = [m for m in model_res if not m['ok']]
    states = sum(r['dis'] for r in res) + sum(m['states'] for m in model_res) + sum(t['states'] for t in tour_res)
    trans = sum(r['gen'] for r in res) + sum(m['transitions'] for m in model_res) + sum(t['transitions'] for t in tour_res)
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': traces,
                       'events_validated': sum(v for k, v in count.items() if k.startswith('op.')),
                       'exercised': dict(sorted(count.items())),
                       'models': [{k: v for k, v in m.items() if k != 'output'} for m in model_res],
                       'transition_tours': [{'specification': t['cfg'], 'histories': len(t['paths']), 'states': t['states'], 'transitions': t['transitions'], 'transitions_replayed': t['covered']}
                                            for t in tour_res],
                       'clauses_deciding': P['clauses'],
                       'mismatches_of_other_properties': sorted({m[3] for m in mm} - {m[3] for m in rel}),
                       'samples': [r['sample'] for r in res if r['sample']][:2],
                       'histories_cut_by_deadline': sum(len(s) for s in shards) - traces},
          'assumptions': ['histories are generated by harness/gen.py within the bounds given in DESIGN.md', 'the recorder harness/session.py projects the public state of the grid',
                          'TLC 1.8 evaluates spec/{}.tla and'.format(module(prop)) + ' the model modules correctly'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(rel)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('{}: {} histories ({} operations, {} queries) replayed against the specification, {} states, {:.1f} s'.format(
        prop, traces, ev['coverage']['events_validated'], sum(v for k, v in count.items() if k.startswith('q.')), states, time.time() - T0))
    for t in tour_res:
        print('  tour {}: {} of {} transitions of {} replayed in {} histories'.format(t['name'], t['covered'], t['transitions'], t['cfg'], len(t['paths'])))
    for m in model_res:
        print('  model {}: {} distinct states, {} transitions, {}'.format(m['name'], m['states'], m['transitions'], 'ok' if m['ok'] else 'FAILED'))
    if rel:
        byt = collections.OrderedDict()
        for t, i, op, cl in rel:
            byt.setdefault(t, []).append((i, op, cl))
        first = sorted(byt.items(), key=lambda kv: (kv[1][0][0], kv[0]))
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}.json'.format(prop))
        t, hits = first[0]
        job, seed, idx = t.rsplit(':', 2)
        pl = payloads.get((job, int(idx)))
        cfg, ops, twins, _ = script(prop, job, int(seed), int(idx), pl)
        json.dump({'property': prop, 'job': job, 'seed': int(seed), 'idx': int(idx), 'payload': pl, 'cfg': cfg, 'ops': ops, 'twins': twins, 'failing': hits, 'exceptions': excs.get(t),
                   'how': 'harness/check.sh --property {} --replay {}'.format(prop, path), 'all_failing_histories': list(byt)[:200]}, open(path, 'w'), indent=1)
        clauses = collections.Counter(cl for h in byt.values() for _, _, cl in h)
        print('{} of {} histories violate {}: {}'.format(len(byt), traces, prop, dict(clauses)))
        for i, op, cl in hits[:10]:
            x = (list(excs.get(t) or []) + [''] * (i + 1))[i - 1]
            print('  history {} event {} ({}): {} {}'.format(t, i, op, cl, x))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors:
        for num, e in errors:
            print('ERROR in {}: {}'.format(num, e))
        return 2
    if bad_models:
        for m in bad_models:
            print('ERROR: model {} does not satisfy its invariants:\n{}'.format(m['name'], m['output'][-3000:]))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
