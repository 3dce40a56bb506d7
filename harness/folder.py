"""Histories of grids and their folders (create_grid, load_grid, is_bathygrid, save, load), recorded for spec/TraceFolder.tla.

A folder is [name, k]: k = 0 the folder of that name, k > 0 the new ones that the code made next to it."""
import contextlib
import hashlib
import io
import os
import random
import shutil
import tempfile
import traceback

import numpy as np

TYPES = {'SRGrid': ('single_resolution', 'numpy'), 'SRGridZarr': ('single_resolution', 'zarr'), 'VRGridTile': ('variable_resolution_tile', 'numpy'), 'VRGridTileZarr': ('variable_resolution_tile', 'zarr')}
NOWHERE = ['', 0]
# tile size, sub tile size in metres
SIZES = [(1024, 128), (64, 16), (256, 256), (512, 64)]
# one sounding in tile p of a row of tiles (the middle one is a hole to begin with)
FOREIGN = ['notes.txt', 'sub/notes.txt', 'SRGrid_Rooted/x', 'Other_Root/x', 'metadata.json', '.hidden']


def build(rng, prof):
    """a script; operations on grids that are not open (any more) are left out when it runs"""
    types = rng.sample(list(TYPES), rng.choice([1, 2, 2, 3]))
    names = ['f', 'g', 'f_2'][:rng.choice([1, 2, 2, 3])]
    ops, n, pts = [], 0, 0
    cfg = {'size': rng.choice(SIZES), 'bs': rng.random() < .2, 'rel': rng.random() < .3, 'slash': rng.random() < .2, 'vert': rng.random() < .5, 'off': rng.choice([0, -2, 5])}
    if prof.get('pattern'):
        # grids that replace one another, or share a folder
        f, typ = rng.choice(names), rng.choice(types)
        for j in range(rng.choice([2, 2, 3])):
            n += 1
            pts += 2
            t = typ if rng.random() < .7 else rng.choice(list(TYPES))
            ops += [{'op': 'create', 'x': n, 'f': NOWHERE if rng.random() < .6 else [rng.choice(names), 0], 'typ': t, 'bad': ''},
                    {'op': 'add', 'x': n, 'ids': [pts - 1, pts], 'place': [rng.choice([0, 0, 1, 2]), rng.randrange(4)]}]
            if rng.random() < .5:
                ops.append({'op': 'grid', 'x': n, 'res': rng.choice([8, 16])})
            if rng.random() < .3:
                ops.append({'op': 'remove', 'x': n, 'which': rng.randrange(100)})
            ops.append({'op': 'save', 'x': n, 'f': [f, 0]})
            if rng.random() < .3:
                ops.append({'op': 'close', 'x': n})
        n += 1
        ops += [{'op': 'load', 'x': n, 'f': [f, 0]}, {'op': 'is', 'x': 0, 'f': [f, 0]}]
    for _ in range(rng.randint(*prof['nops'])):
        k = rng.choices(['mkdir', 'junk', 'rm', 'create', 'add', 'remove', 'grid', 'save', 'load', 'is', 'bad', 'close'], [.5, .7, .4, 4 if n < 2 else 1.5, 6, 2, 1.5, 4, 4, 1, .5, .3])[0]
        f = rng.choice(names)
        if k in ('mkdir', 'junk', 'rm'):
            ops.append({'op': k, 'f': [f, 0], 'what': rng.choice(FOREIGN)})
        elif k == 'create' or k == 'bad':
            n += 1
            ops.append({'op': 'create', 'x': n, 'f': NOWHERE if rng.random() < .35 else [f, 0], 'typ': rng.choice(types), 'bad': rng.choice(['gt', 'be', 't']) if k == 'bad' else ''})
            if k == 'create':
                pts += 1
                ops.append({'op': 'add', 'x': n, 'ids': [pts], 'place': [rng.randrange(4)]})
        elif k in ('load', 'is'):
            n += k == 'load'
            ops.append({'op': k, 'x': n, 'f': [f, rng.choice([0, 0, 0, 0, 1, 1, 2])]})
        elif n:
            x = rng.choice([n, n, rng.randint(1, n)])
            if k == 'add':
                m = rng.choice([1, 1, 2])
                ops.append({'op': 'add', 'x': x, 'ids': list(range(pts + 1, pts + m + 1)), 'place': [rng.randrange(4) for _ in range(m)]})
                pts += m
            else:
                ops.append({'op': k, 'x': x, 'f': [f, rng.choice([0, 0, 0, 0, 1])], 'res': rng.choice([8, 16]), 'which': rng.randrange(100)})
    ops.append({'op': 'is', 'x': 0, 'f': [names[0], 0]})
    return cfg, ops, []


def concrete(payload, rng, prof):
    """script for one path through the transitions of spec/GenFolder.tla"""
    cfg, _, _ = build(rng, {'nops': (1, 1)})
    real = dict(zip('ab', rng.sample(list(TYPES), 2)))

    def fo(t):
        return [t[:-1], int(t[-1])]
    ops, num, new = [], {}, 0
    place = {1: 2, 2: 0, 3: 1}
    for op in payload['path']:
        c = op.split(':')
        if c[0] in 'cok' and c[0] != 'k':
            new += 1
            num[c[1]] = new
        x = num.get(c[1])
        if c[0] in 'jx':
            ops.append({'op': 'junk' if c[0] == 'j' else 'rm', 'f': fo(c[1]), 'what': rng.choice(FOREIGN)})
        elif c[0] == 'c':
            ops.append({'op': 'create', 'x': x, 'f': fo(c[2]), 'typ': real[c[3]], 'bad': ''})
        elif c[0] == 'b':
            ops.append({'op': 'create', 'x': 0, 'f': fo(c[1]), 'typ': real['a'], 'bad': rng.choice(['gt', 'be', 't'])})
        elif c[0] == 'a':
            ops.append({'op': 'add', 'x': x, 'ids': [int(c[2])], 'place': [place[int(c[2])]]})
            if rng.random() < .3:
                ops.append({'op': 'grid', 'x': x, 'res': rng.choice([8, 16])})
        elif c[0] == 'r':
            ops.append({'op': 'remove', 'x': x, 'id': int(c[2])})
        elif c[0] == 's':
            ops.append({'op': 'save', 'x': x, 'f': fo(c[2])})
        elif c[0] == 'o':
            ops.append({'op': 'load', 'x': x, 'f': fo(c[2])})
        elif c[0] == 'k':
            ops.append({'op': 'close', 'x': x})
        elif c[0] == 'i':
            ops.append({'op': 'is', 'x': 0, 'f': fo(c[1])})
    return cfg, ops, []


def digest(path):
    h = hashlib.sha1()
    for d, ds, fs in os.walk(path):
        ds.sort()
        h.update((d[len(path):] + '|' + ','.join(ds)).encode())
        for f in sorted(fs):
            with open(os.path.join(d, f), 'rb') as b:
                h.update(f.encode() + b'\0' + hashlib.sha1(b.read()).digest())
    return h.hexdigest()


class Session:
    def __init__(self, tid, cfg, ops, twins=(), client=None, reload_alt=None):
        self.tid, self.cfg, self.ops = tid, cfg, ops
        self.base = tempfile.mkdtemp(prefix='bgv_', dir=os.environ.get('BGV_SCRATCH'))
        self.base = os.path.realpath(self.base)
        self.open = {}     # number of a grid -> grid
        self.home = {}     # folder path -> [name, k]
        self.junk = {}     # folder path -> (file, content)
        self.src = {}      # (grid content is told by depth: sounding i is i metres deep)

    def path(self, f):
        for p, k in self.home.items():
            if k == list(f):
                return p
        return os.path.join(self.base, 'w', f[0] if f[1] == 0 else '{}~{}'.format(*f))

    def asked(self, f):
        """the folder as a user would name it"""
        if f == NOWHERE:
            return ''
        p = self.path(f)
        if self.cfg['rel']:
            p = os.path.relpath(p)
        return p + os.sep if self.cfg['slash'] else p

    def label(self, path, want=None):
        """folder of a path; a new one next to a folder that was asked for gets the next number"""
        if path == '':
            return NOWHERE
        path = os.path.abspath(path)
        if path not in self.home:
            up, name = os.path.split(path)
            if up != os.path.join(self.base, 'w'):
                self.home[path] = ['?', len(self.home) + 1]
            elif want and name.startswith(want[0] + '_') and name not in ('f_2',):
                self.home[path] = [want[0], 1 + max([k[1] for k in self.home.values() if k[0] == want[0]] + [0])]
            else:
                self.home[path] = [name, 0]
        return self.home[path]

    def folders(self):
        w = os.path.join(self.base, 'w')
        return sorted(os.path.join(w, d) for d in os.listdir(w))

    def value(self, g):
        from session import iu
        T, S = self.cfg['size']
        ids, resl = [], set()

        def leaves(q):
            for t in ([] if q.tiles is None else q.tiles.flat):
                if t is not None:
                    if hasattr(t, 'tiles'):
                        yield from leaves(t)
                    else:
                        yield t
        for t in leaves(g):
            ids += [int(round(float(z))) for z in np.asarray(t.data['z'])]
            resl |= {iu(r) for r in t.cells}
        return {'ids': sorted(ids) if len(ids) == len(set(ids)) else [-1], 'resl': sorted(resl), 'set': [iu(g.tile_size), iu(g.subtile_size), int(bool(g.is_backscatter))]}

    def observe(self):
        from bathygrid import maingrid
        from bathygrid.convenience import is_bathygrid
        fs = []
        for p in self.folders():
            ent = sorted(os.listdir(p))
            roots = []
            for e in list(ent):
                typ = e[:-5]
                if e.endswith('_Root') and typ in TYPES:
                    ent.remove(e)
                    g = getattr(maingrid, typ)()
                    try:
                        g.load(p)
                        roots.append({'typ': typ, 'ok': True, 'v': self.value(g)})
                    except Exception:
                        roots.append({'typ': typ, 'ok': False, 'v': {'ids': [], 'resl': [], 'set': []}})
            junk = False
            if p in self.junk:
                f, txt = self.junk[p]
                top = f.split('/')[0]
                if top in ent:
                    ent.remove(top)
                junk = os.path.isfile(os.path.join(p, f)) and open(os.path.join(p, f)).read() == txt
            fs.append({'f': self.label(p), 'junk': junk, 'other': len(ent), 'roots': roots, 'is': bool(is_bathygrid(p))})
        op = [{'x': x, 'typ': type(g).__name__, 'v': self.value(g), 'home': self.label(g.output_folder)} for x, g in sorted(self.open.items())]
        return {'fs': fs, 'open': op, 'leaves': [], 'resl': []}

    def forget(self, home, typ=None, but=None):
        for y in [y for y, g in self.open.items() if y != but and g.output_folder and os.path.abspath(g.output_folder) == home and typ in (None, type(g).__name__)]:
            del self.open[y]

    def run(self):
        cwd = os.getcwd()
        os.mkdir(os.path.join(self.base, 'w'))
        os.chdir(os.path.join(self.base, 'w'))
        evs = []
        try:
            for op in self.ops:
                if op['op'] in ('add', 'remove', 'grid', 'save', 'close') and op['x'] not in self.open:
                    continue
                try:
                    ev = self.step(op)
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    ev = {'op': op['op'], 'ok': False, 'exc': '{}: {} at {}'.format(type(e).__name__, str(e)[:160], ['{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[-4:]]),
                          'a': {'changed': []}, 'alts': [], 'obs': {'fs': [], 'open': [], 'leaves': [], 'resl': []}, 'fatal': True}
                if ev is None:
                    continue
                evs.append(ev)
                if ev.get('fatal'):
                    break
        finally:
            os.chdir(cwd)
            shutil.rmtree(self.base, ignore_errors=True)
        return {'id': self.tid, 'cfg': dict(self.cfg), 'ev': evs, 'cut': ''}

    def step(self, op):
        from bathygrid.convenience import create_grid, load_grid, is_bathygrid
        k, x = op['op'], op.get('x', 0)
        before = {p: digest(p) for p in self.folders()}
        a = {'x': x, 'f': list(op.get('f') or NOWHERE)}
        ok, exc = True, ''
        buf = io.StringIO()
        g = self.open.get(x)
        T, S = self.cfg['size']
        if k in ('load', 'is', 'save') and a['f'][1] > 0 and list(a['f']) not in self.home.values():
            a['f'] = [a['f'][0], 0]
        f = a['f']
        try:
            with contextlib.redirect_stdout(buf):
                if k == 'mkdir':
                    os.makedirs(self.path(f), exist_ok=True)
                elif k == 'junk':
                    p = self.path(f)
                    if p in self.junk and os.path.isdir(p):
                        return None
                    q = os.path.join(p, op['what'])
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    self.junk[p] = (op['what'], 'not a grid {}'.format(len(self.junk)))
                    with open(q, 'w') as o:
                        o.write(self.junk[p][1])
                elif k == 'rm':
                    p = self.path(f)
                    if not os.path.isdir(p):
                        return None
                    shutil.rmtree(p)
                    self.junk.pop(p, None)
                    self.forget(p)
                elif k == 'close':
                    del self.open[x]
                elif k == 'create':
                    gt, be = TYPES[op['typ']]
                    a.update(typ=op['typ'], bad=bool(op['bad']), set=[T * 16, S * 16 if gt.startswith('v') else 0, int(self.cfg['bs'])], home=NOWHERE)
                    n = create_grid(folder_path=self.asked(f), grid_type='quadtree' if op['bad'] == 'gt' else gt, grid_backend='hdf' if op['bad'] == 'be' else be,
                                    tile_size=T + 1 if op['bad'] == 't' else T, subtile_size=S, is_backscatter=self.cfg['bs'])
                    a['home'] = self.label(n.output_folder, f)
                    if n.output_folder:
                        self.forget(os.path.abspath(n.output_folder))
                    self.open[x] = n
                elif k == 'add':
                    xy = np.array(op['place'], dtype=float) * T + T / 4 + self.cfg['off'] * T
                    other = np.full(len(xy), T / 8)
                    d = np.empty(len(xy), dtype=[('x', float), ('y', float), ('z', float)])
                    d['x'], d['y'] = (other, xy) if self.cfg['vert'] else (xy, other)
                    d['z'] = op['ids']
                    a['ids'] = list(op['ids'])
                    for i in range(len(xy)):   # one source for each sounding
                        g.add_points(d[i:i + 1], 's{}'.format(op['ids'][i]), ['s.all'], 26917, 'waterline', progress_bar=False)
                elif k == 'remove':
                    have = sorted(g.container)
                    if not have:
                        return None
                    name = 's{}'.format(op['id']) if 'id' in op else have[op['which'] % len(have)]
                    a['ids'] = [int(name[1:])]
                    g.remove_points(name, progress_bar=False)
                elif k == 'grid':
                    if g.is_empty:
                        return None
                    a['res'] = op['res'] * 16
                    g.grid('mean', float(op['res']), clear_existing=True, progress_bar=False)
                elif k == 'save':
                    g.save(self.asked(f), progress_bar=False)
                elif k == 'load':
                    self.open[x] = load_grid(self.asked(f))
                elif k == 'is':
                    a['ret'] = bool(is_bathygrid(self.asked(f)))
        except Exception as e:
            ok, exc = False, '{}: {}'.format(type(e).__name__, str(e)[:160])
        if k in ('add', 'remove', 'grid', 'save', 'load') and x in self.open and self.open[x].output_folder:
            me = self.open[x]
            self.forget(os.path.abspath(me.output_folder), type(me).__name__, x)
        after = {p: digest(p) for p in self.folders()}
        a['changed'] = [self.label(p) for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p) and (p in before or p in after)]
        return {'op': k, 'ok': ok, 'exc': exc, 'a': a, 'alts': [], 'obs': self.observe()}
