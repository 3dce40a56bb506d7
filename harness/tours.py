"""Histories that cover the transitions of the contract specification (spec/Gen.tla) and of the mechanism (spec/GenMech.tla): TLC prints the transition graph,
this joins its transitions to histories and gives each a concrete form (place, scale, storage, queries)."""
import collections
import random
import tlc
import gen

LIMIT = 150


def graph(name, scratch=None, maxops=None, timeout=600):
    """runs TLC on Gen with the configuration spec/<name>.cfg; returns a JSON-able transition graph (states are numbered in breadth first order)"""
    rc, out, g, d, _ = tlc.run('GenMech' if name.startswith('GenMech') else 'GenFolder' if name.startswith('GenFolder') else 'Gen', cfg=name + '.cfg', scratch=scratch, workers=1, mem='3g', timeout=timeout, maxops=maxops)
    if rc != 0:
        raise tlc.TlcError('Gen {} failed:\n{}'.format(name, out[-3000:]))
    pts, cfg, raw = {}, None, collections.defaultdict(set)
    for ln in out.splitlines():
        ln = ln.strip().strip('"')
        if ln.startswith('E|'):
            _, s, op, same, t = ln.split('|')
            raw[s].add((op, same == '=', t))
        elif ln.startswith('P|'):
            p = ln.split('|')
            pts[int(p[1])] = [int(v) for v in p[2:5]]
        elif ln.startswith('C|'):
            cfg = ln.split('|')
    num = {cfg[4]: 0}
    edges = []
    todo = collections.deque([cfg[4]])
    while todo:
        s = todo.popleft()
        for op, same, t in sorted(raw[s], key=lambda e: e[:2]):
            if t not in num:
                num[t] = len(num)
                todo.append(t)
            edges.append((num[s], op, num[t]))
    return {'name': name, 'vr': cfg[1] == 'TRUE', 'T': int(cfg[2]), 'S': int(cfg[3]), 'pts': [pts[i] for i in sorted(pts)], 'edges': edges, 'states': len(num), 'generated': g, 'distinct': d}


def accepted(gr):
    """the graph without the refused operations"""
    return dict(gr, edges=[e for e in gr['edges'] if e[0] != e[2]])


def walk(gr, count, length, seed):
    """up to count walks from the initial state that together cover as many transitions as they can; returns (paths, covered, total)"""
    rng = random.Random('tour-{}-{}'.format(gr['name'], seed))
    out = collections.defaultdict(list)
    for k, (s, op, t) in enumerate(gr['edges']):
        out[s].append(k)
    for s in out:
        rng.shuffle(out[s])
    left = {s: list(v) for s, v in out.items()}
    nleft = len(gr['edges'])
    seen = set()

    def near(s, depth):
        """shortest way from s to a state with transitions left"""
        q = collections.deque([(s, ())])
        done = {s}
        while q:
            u, path = q.popleft()
            if left.get(u):
                return path
            if len(path) >= depth:
                continue
            for k in out.get(u, ()):
                v = gr['edges'][k][2]
                if v not in done:
                    done.add(v)
                    q.append((v, path + (k,)))
        return None
    # most histories go on from transitions that are far from the start, so the graph is entered at random
    paths = []
    while len(paths) < count and nleft:
        s, path = 0, []
        for _ in range(rng.randint(0, 3)):   # a random start, so that few histories spread over the graph
            if not out.get(s):
                break
            k = rng.choice(out[s])
            path.append(k)
            s = gr['edges'][k][2]
        while len(path) < length:
            if left.get(s):
                while left[s] and left[s][-1] in seen:
                    left[s].pop()
                if not left[s]:
                    continue
                k = left[s].pop()
                path.append(k)
                s = gr['edges'][k][2]
            else:
                way = near(s, max(0, length - len(path) - 1))
                if way is None:
                    break
                path += way
                for k in way:
                    s = gr['edges'][k][2]
        new = [k for k in path if k not in seen]
        if not new:
            # nothing new from this start: go straight
            way = near(0, 50)
            if way is None:
                break
            path = list(way)
            s = gr['edges'][path[-1]][2] if path else 0
            while left.get(s) and left[s][-1] in seen:
                left[s].pop()
            if not left.get(s):
                continue
            k = left[s].pop()
            path.append(k)
        for k in path:
            if k not in seen:
                seen.add(k)
                nleft -= 1
        paths.append([gr['edges'][k][1] for k in path])
    return paths, len(seen), len(gr['edges'])


def concrete(payload, rng, prof):
    """script for session.Session from one path"""
    p = prof
    T, S, vr, pool = payload['T'], payload['S'], payload['vr'], payload['pts']
    path = payload['path']
    auto = any(op.startswith('g:') and op.split(':')[2] == '0' for op in path)
    f = 1 if auto else rng.choice([1, 1, 2, 4, 16])
    ox, oy = rng.choice([(0, 0), (0, 0), (T * f // 2, -T * f // 4), (-3 * T * f, 0), (1, -1)]) if rng.random() < p['origin'] else (0, 0)
    bx, by = rng.choice([0, 0, -1, -2, 5, 300]), rng.choice([0, 0, -1, -40])
    disk = rng.random() < p['disk'] or 'l' in path
    tv = rng.random() < p['tv']
    th = tv and rng.random() < p['th']
    cube = rng.random() < p['cube'] and {op.split(':')[1] for op in path if op[0] == 'g'} <= {'mean', 'shoalest'}   # cube in place of the mean
    tv, th = tv or cube, th or cube
    par = [] if rng.random() < 0.5 else ['prior', 'order1b', 'input']
    cfg = {'vr': vr, 'T': T * f, 'S': S * f, 'ox': ox, 'oy': oy, 'backend': rng.choice(p['backends']), 'disk': disk, 'bs': rng.random() < p['bs'], 'tv': tv, 'th': th, 'dt': 'f8', 'xydt': 'f8',
           'inttile': rng.random() < 0.3}
    flip = rng.random() < 0.3    # x and y exchanged

    def pt(i):
        x, y, z = pool[i - 1]
        if flip:
            x, y = y, x
        return [x * f + ox + bx * T * f, y * f + oy + by * T * f, z, 10 * i + rng.randrange(10), 7 * i + rng.randrange(7)]
    names = dict(zip('abcdef', rng.sample(gen.NAMES, 6) if rng.random() < 0.5 else 'abcdef'))
    refs = {'w': 'plain', 'v': 'up', 'm1': 'mllw1', 'm2': 'mllw2'}
    if len({op.split(':')[3].split(',')[1] for op in path if op.startswith('a:')}) == 1:
        refs['w'] = rng.choice(['plain', 'up', 'down', 'mllw1'])
    t0 = 1500000000
    ops = []
    have = set()

    def query():
        ops.append({'op': 'q', 'seed': rng.randrange(1 << 30), 'kinds': list(p['kinds']), 'n': rng.randint(*p['nq']), 'names': sorted(names[n] for n in have) + ['nosuch'],
                    'hot': [pt(i)[:2] for i in range(1, len(pool) + 1)], 'pool': [], 'nods': p['nods'], 'lsmax': p['lsmax']})
    for op in path:
        c = op.split(':')
        if c[0] == 'a':
            epsg, vref, mint, maxt = c[3].split(',')
            o = {'op': 'add', 'name': names[c[1]], 'pts': [pt(int(i)) for i in c[2].split(',')], 'inp': rng.choice(p['inps']), 'files': [c[1] + '.all'], 'epsg': int(epsg),
                 'vref': gen.VREFS[refs[vref]], 'mint': int(mint) and t0 + int(mint), 'maxt': int(maxt) and t0 + int(maxt), 'bar': False}
            if c[4]:
                o['bad'], o['inp'] = c[4], 'np'
            else:
                have.add(c[1])
            ops.append(o)
        elif c[0] == 'r':
            have.discard(c[1])
            ops.append({'op': 'remove', 'name': names[c[1]]})
        elif c[0] == 'g':
            alg = 'cube' if cube and c[1] == 'mean' else c[1]
            ops.append({'op': 'grid', 'alg': alg, 'par': par if alg == 'cube' else [], 'res': int(c[2]) * f if int(c[2]) not in (48,) else 48, 'mode': c[3], 'clear': c[4] == 'TRUE', 'regrid': c[5], 'bar': False, 'intres': rng.random() < 0.3})
        elif c[0] == 'l':
            ops.append({'op': 'reload'})
        if disk and have and c[0] != 'l' and rng.random() < p.get('treload', 0):
            ops.append({'op': 'reload'})
        if have and rng.random() < p.get('tsave', 0):
            ops.append({'op': 'saveload', 'swap': rng.random() < p['swap']})
            disk = True
        if p['kinds'] and have and rng.random() < p.get('tq', 0):
            query()
    if p['kinds'] and have:
        query()
    t = p['twins']
    tw = []
    if t == 'storage':
        alls = [('mem', {'disk': False}), ('npy', {'disk': True, 'backend': 'numpy'}), ('zarr', {'disk': True, 'backend': 'zarr'})]
        me = 'mem' if not cfg['disk'] else ('npy' if cfg['backend'] == 'numpy' else 'zarr')
        tw = [rng.choice([a for a in alls if a[0] != me])]
    elif t == 'live':
        tw = [('live', {})]
    elif t == 'dask':
        tw = [('par', {'dask': True})]
    return cfg, ops, tw
