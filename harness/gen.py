"""Seeded generator of histories (scripts for session.Session).  A profile narrows the choices for one property;
every history is legal input for the public API, including the calls the API has to refuse."""
import random
import numpy as np

REFQ = ['layer', 'trim', 'surf', 'tiles']   # queries that a grid without layers refuses
BAGKEYS = ['individual_name', 'organizational_name', 'position_name', 'attr_date', 'vert_crs', 'abstract', 'process_step_description',
           'attr_datetime', 'restriction_code', 'other_constraints', 'classification', 'security_user_note']

DEPTHKEY = [10, 20, 40, 60, 80, 160, 320, 640, 1280, 2560]

VREFS = {
    'plain': 'waterline',
    'down': 'VERTCRS["chart datum",VDATUM["x"],CS[vertical,1],AXIS["depth (D)",down]]',
    'up': 'VERTCRS["ellipsoid",VDATUM["x"],CS[vertical,1],AXIS["height (h)",up]]',
    'mllw1': 'VERTCRS["NOAA MLLW depth",CS[vertical,1],AXIS["depth (D)",down],VERSION["NOAA_VDATUM_4.1.2"]]',
    'mllw2': 'VERTCRS["NOAA MLLW depth",CS[vertical,1],AXIS["depth (D)",down],VERSION["NOAA_VDATUM_4.4.1"]]',
    'mllwup': 'VERTCRS["NOAA MLLW height",CS[vertical,1],AXIS["height (h)",up]]',
    'none': '',
}
NAMES = ['a', 'b', 'c', 'a_1', 'src_0', 'src_0_1', 'src_01', 'em2040_123__line1', 'em2040_123__line2', 'em2040_123', 'x y', 'Z', 'em_0_0', 'q__0', 'depths',
         'density_1', '0', 'data', 'em2040_1234__line1', ' lead', 'trail ', 'lead', 'A', 'x/y.all', 'a.b', 'a__b__c', '__', 'ünïcode é', '%s{}', 'long' * 40]

# (tile size, sub tile size, resolutions) in 1/16 m
SR_SIZES = [(256, 256, [8, 16, 32, 64, 128, 256]), (64, 64, [4, 8, 16, 32, 64]), (16, 16, [4, 8, 16]), (1024, 1024, [64, 128, 256, 512, 1024]), (512, 512, [32, 64, 128, 256]),
            (16384, 16384, [64, 256, 1024, 2048, 4096, 8192, 16384])]
VR_SIZES = [(256, 64, [4, 8, 16, 32, 64]), (128, 64, [8, 16, 32, 64]), (1024, 512, [64, 128, 256, 512]), (512, 128, [16, 32, 64, 128]), (256, 256, [32, 64, 128]),
            (16384, 2048, [128, 512, 1024, 2048])]

BASE = dict(
    pause=False, vr=0.5, disk=0.0, backends=['numpy', 'zarr'], bs=0.08, tv=0.7, th=0.6, thtv=True, origin=0.3, f4=0.15, xyf4=0.1, inttile=0.3, mixdt=0.25, order=0.2, utm=0.2, leaves=0,
    sr_sizes=SR_SIZES, vr_sizes=VR_SIZES, nops=(5, 9), npts=(1, 18), maxpts=150, big=0.0,
    w=dict(add=5, remove=2, grid=4, q=3, reload=0, saveload=0, badadd=0, badgrid=0, rmunknown=0.3, mk=0),
    algs=['mean', 'shoalest'], clear=0.25, update=0.5, auto=0.25, automodes=['depth', 'density'], newalg=0.2, keepres=0.35,
    kinds=['layer'], nq=(1, 3), vrefs=['plain', 'down', 'up', 'none', 'mllw1'], epsgs=[26917, 26917, 0, 32611], zs=['rand', 'ties', 'flat', 'deep', 'neg', 'table'],
    twins='', dask=0.0, names=NAMES, endq=True, firstgrid=0.6, inps=['np', 'np', 'np', 'dask', 'xr', 'strided', 'ro', 'xrx', 'xrc'], times=0.7, spread=3, plane=0.0, crowd=0.0, readd=0.5, swap=0.5, fmt_lim=True,
    nods=['nan', 'nan', '-9999', '1000000', '-9999.9'], lsmax=3, cube=0.0, edge=0.0, nocube=False,
)
BAD = ['dup', 'epsg', 'vref', 'empty', 'nox', 'noy', 'noz', 'plain', 'list', 'none', 'fields', 'xr2d']


def profile(**kw):
    p = dict(BASE)
    w = dict(BASE['w'])
    w.update(kw.pop('w', {}))
    p.update(kw)
    p['w'] = w
    return p


class History:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof
        self.ops = []
        self.src = {}
        self.total = 0
        self.alg = ''
        self.lastres = None
        self.pool = []     # values seen, so that the same soundings turn up again
        self.gone = []
        self.t0 = rng.randrange(300000000, 1600000000)

    def chance(self, x):
        return self.r.random() < x

    # ------------------------------------------------------------------ configuration
    def config(self):
        r, p = self.r, self.p
        vr = self.chance(p['vr'])
        T, S, self.ress = r.choice(p['vr_sizes'] if vr else p['sr_sizes'])
        ox = oy = 0
        if self.chance(p['origin']):
            ox, oy = r.choice([(T // 2, -T // 4), (-3 * T, T // 2), (16 * 7, 16 * 13), (T * 5, -T * 2), (0, T // 8), (1, -1), (-T // 16 or 1, 0)])
        disk = self.chance(p['disk'])
        bs = self.chance(p['bs'])
        tv = self.chance(p['tv'])
        th = self.chance(p['th']) and (tv or not p['thtv'])
        self.cfg = {'vr': vr, 'T': T, 'S': S, 'ox': ox, 'oy': oy, 'backend': r.choice(p['backends']), 'disk': disk, 'bs': bs, 'tv': tv, 'th': th,
                    'dt': 'f4' if self.chance(p['f4']) else 'f8', 'xydt': 'f4' if self.chance(p['xyf4']) else 'f8', 'inttile': self.chance(p['inttile']), 'pause': p['pause']}
        self.algs, self.cube = p['algs'], self.chance(p['cube'])
        if self.cube:   # needs both uncertainties
            self.cfg['tv'] = self.cfg['th'] = True
            self.algs = ['cube', 'cube'] + p['algs']
        # where the survey is: tile index of its origin
        far = r.choice([0, 0, 0, 1, -1, 5, -40, 300]) if T < 8192 else r.choice([0, -1, 3])
        self.bx, self.by = r.choice([0, -1, -2, far, far]), r.choice([0, -1, far])
        self.mixed = self.cfg['dt'] == 'f8' and self.chance(p['mixdt'])
        if self.chance(p['utm']) and (self.cfg['xydt'] == 'f8' or ox == oy == 0 and 'nb' not in p['kinds'] and not self.cube):   # projected coordinates as they occur
            self.bx, self.by = (r.randrange(200000, 800000) * 16) // T, (r.choice([r.randrange(100000, 6000000), 4500000]) * 16) // T
        elif self.cfg['xydt'] == 'f4':  # keep the coordinates exact
            self.bx, self.by = max(-20, min(20, self.bx)), max(-20, min(20, self.by))
        self.only = []   # at most this many leaf tiles
        self.nleaves = r.randint(1, p['leaves']) if p['leaves'] else 0
        self.hot = []
        for _ in range(r.randint(1, 3)):
            self.hot.append(self.anchor(r.randint(0, 1), r.randint(0, 1)))
        self.zstyle = r.choice(p['zs'])
        if self.cfg['dt'] == 'f4' and self.zstyle in ('deep', 'table'):
            self.zstyle = 'rand'
        if T >= 8192:  # keeps the automatic resolutions coarse
            self.zstyle, self.cfg['dt'] = 'vdeep', 'f8'
        self.vref0 = r.choice(p['vrefs'])
        self.epsg0 = r.choice(p['epsgs'])
        self.table = r.choice(DEPTHKEY)
        self.plane_ab = (r.randint(-3, 3), r.randint(-3, 3), r.randint(5, 300) * 1000)
        return self.cfg

    def anchor(self, dx, dy):
        """a spot in tile (bx+dx, by+dy): corner of some cell"""
        c = self.cfg
        T, S = c['T'], c['S']
        cell = self.r.choice(self.ress)
        step = max(1, T // cell)
        x = c['ox'] + (self.bx + dx) * T + self.r.randrange(step) * cell
        y = c['oy'] + (self.by + dy) * T + self.r.randrange(step) * cell
        return x, y, cell

    # ------------------------------------------------------------------ soundings
    def z(self):
        r, s = self.r, self.zstyle
        if s == 'rand':
            return r.randrange(100, 9000)
        if s == 'ties':
            return r.choice([5000, 5001, 5002, 7000])
        if s == 'flat':
            return 12345
        if s == 'deep':
            return r.choice([r.randrange(9000, 90000), r.randrange(90000, 3900000)])
        if s == 'vdeep':
            return r.randrange(1300000, 3900000)
        if s == 'abyss':   # around and beyond the last depth of the table
            return 20480000 + r.choice([-1, 0, 1, 0, 1500000, -9000])
        if s == 'neg':
            return -r.randrange(100, 90000)
        return self.table * 1000 + r.choice([-1, 0, 0, 0, 1, -3, 2])

    def pts(self, n):
        r, c = self.r, self.cfg
        T, S = c['T'], c['S']
        out = []
        crowd = self.chance(self.p['crowd'])   # all of it in one cell
        for _ in range(n):
            u = 0.3 if crowd else r.random()
            if u < 0.12 and self.pool:
                x, y = r.choice(self.pool)[:2]
            elif u < 0.62:
                hx, hy, cell = self.hot[0] if crowd else r.choice(self.hot)
                k = 0.6 if crowd else r.random()
                if k < 0.3:
                    x, y = hx, hy
                elif k < 0.5:
                    x, y = hx + r.choice([-1, 0, cell - 1, cell]), hy + r.choice([-1, 0, cell - 1, cell])
                else:
                    x, y = hx + r.randrange(cell), hy + r.randrange(cell)
            elif u < 0.8:   # borders of tiles, sub tiles and cells
                g = r.choice([T, S, r.choice(self.ress)])
                x, y, _ = self.anchor(r.randint(0, 1), r.randint(0, 1))
                if r.random() < 0.7:
                    x = c['ox'] + ((x - c['ox']) // g) * g + r.choice([0, 0, -1, 1])
                if r.random() < 0.7:
                    y = c['oy'] + ((y - c['oy']) // g) * g + r.choice([0, 0, -1, 1])
            elif u < 0.93:
                x, y, _ = self.anchor(0, 0)
                x, y = x + r.randrange(T), y + r.randrange(T)
            else:           # growth
                d = self.p['spread']
                x, y, _ = self.anchor(r.randint(-d, d), r.randint(-d, d))
                x, y = x + r.randrange(T), y + r.randrange(T)
            if self.p['edge'] and self.chance(self.p['edge']):   # close to the borders of tiles and sub tiles, within a tenth of their size or just not
                g = r.choice([T, S])
                d = [0, 1, g // 10 - 1, g // 10, g // 10 + 1, g // 10 + 2, r.randrange(g // 4 + 1)]
                if r.random() < 0.6:
                    x = c['ox'] + ((x - c['ox']) // g) * g + r.choice([1, -1]) * r.choice(d)
                else:
                    y = c['oy'] + ((y - c['oy']) // g) * g + r.choice([1, -1]) * r.choice(d)
            if self.p['plane']:
                x, y = (x // 2) * 2, (y // 2) * 2
                a, b, z0 = self.plane_ab
                # z = z0 + a*dx + b*dy in mm, relative to the first hot spot
                z2 = 2 * z0 + 125 * (a * (x - self.hot[0][0]) + b * (y - self.hot[0][1]))
                z = z2 // 2
                if self.chance(self.p.get('noise', 0.0)):
                    z += r.randrange(-3000, 3000)
            else:
                z = self.z()
            if self.nleaves:
                ox, oy = c['ox'], c['oy']
                lf = ((x - ox) // S * S + ox, (y - oy) // S * S + oy)
                if lf not in self.only and len(self.only) < self.nleaves:
                    self.only.append(lf)
                elif lf not in self.only:
                    k = r.choice(self.only)
                    x, y = x - lf[0] + k[0], y - lf[1] + k[1]
            p = [x, y, z, r.randrange(1, 3000), r.randrange(1, 3000)]
            out.append(p)
        if r.random() < 0.15:
            out.sort(key=lambda q: q[2])
        elif r.random() < 0.1:
            out.sort(key=lambda q: (q[0], q[1]))
        if out and r.random() < 0.15 and len(out) < 20:  # exact duplicates
            out.append(list(r.choice(out)))
        self.pool += out[:3]
        self.pool = self.pool[-12:]
        return out

    def fill(self, n):
        """an evenly surveyed tile: soundings in (almost) all the 16 m cells of a leaf tile"""
        r, c = self.r, self.cfg
        S = c['S'] if c['vr'] else c['T']
        x0, y0, _ = self.anchor(r.randint(0, 1), r.randint(0, 1))
        x0, y0 = c['ox'] + ((x0 - c['ox']) // S) * S, c['oy'] + ((y0 - c['oy']) // S) * S
        st = min(S, 256)
        k = S // st
        cells = [(i, j) for i in range(k) for j in range(k)]
        r.shuffle(cells)
        cells = cells[:max(1, min(40, int(len(cells) * r.choice([0.5, 0.74, 0.75, 0.76, 0.8, 1.0, 1.0]) + 0.5)))]
        per = r.choice([1, 2, 4, 8, 20])
        out = []
        for i, j in cells:
            for _ in range(max(1, min(per + r.randint(-2, 3), 24))):
                out.append([x0 + j * st + r.randrange(st), y0 + i * st + r.randrange(st), self.z(), r.randrange(1, 3000), r.randrange(1, 3000)])
        return out[:self.p['maxpts']]

    # ------------------------------------------------------------------ operations
    def op_add(self):
        r, p = self.r, self.p
        free = [n for n in p['names'] if n not in self.src]
        if not free or self.total >= p['maxpts']:
            return self.op_remove()
        gone = [n for n in self.gone if n in free]
        name = r.choice(gone) if gone and self.chance(p['readd']) else r.choice(free)
        n = r.randint(*p['npts'])
        if self.chance(p['big']):
            n = r.randint(60, 120)
        n = min(n, p['maxpts'] - self.total)
        pts = self.fill(max(20, n * 4)) if self.chance(p.get('fill', 0)) else self.pts(max(1, n))
        op = self.meta({'op': 'add', 'name': name, 'pts': pts, 'inp': r.choice(p['inps'])})
        self.types(op)
        vref = self.vref0
        if vref.startswith('mllw') and r.random() < 0.5:
            vref = r.choice(['mllw1', 'mllw2'])
        if vref == 'none' and r.random() < 0.3:
            vref = self.vref0 = 'plain'
        op['vref'] = VREFS[vref]
        op['epsg'] = self.epsg0
        if self.epsg0 == 0 and r.random() < 0.2:
            op['epsg'] = self.epsg0 = 26917
        elif self.epsg0 and r.random() < 0.1 and self.src:
            op['epsg'] = 0
        self.src[name] = pts
        self.nonzero = getattr(self, 'nonzero', True) and all(q[2] > 0 and q[3] > 0 and q[4] > 0 for q in pts)
        self.total += len(pts)
        self.ops.append(op)
        if self.chance(0.3) and len(self.hot) < 6:
            self.hot.append(self.anchor(r.randint(-1, 1), r.randint(-1, 1)))

    def types(self, op):
        """number types and order of the fields of one addition; values are made exact in them"""
        r, c = self.r, self.cfg
        if self.chance(self.p['order']):
            o = ['x', 'y', 'z', 'tvu', 'thu']
            r.shuffle(o)
            op['order'] = o
        z = u = c['dt']
        xy = c['xydt']
        if self.mixed:
            z = r.choice(['f8', 'f8', 'f4', 'i4', 'i8', '>f8']) if self.zstyle not in ('deep', 'table', 'vdeep', 'abyss') else r.choice(['f8', 'f8', 'i4'])
            u = r.choice(['f8', 'f4'])
            xy = r.choice(['f8', 'f8', 'f4', 'i4', 'i8']) if not (c['ox'] or c['oy']) else 'f8'
            if xy == 'f4' and ('nb' in self.p['kinds'] or self.cube):   # buffers that such numbers cannot tell apart
                xy = 'f8'
            if z[0] == 'i' and self.p['plane']:
                z = 'f8'
            if z[0] == 'i' and self.chance(.6):   # the smallest number type that holds them
                lo, hi = min(p[2] // 1000 for p in op['pts']), max(p[2] // 1000 for p in op['pts'])
                fit = [t for t, a, b in (('i1', -128, 127), ('u1', 0, 255), ('i2', -32768, 32767), ('u2', 0, 65535)) if a <= lo and hi <= b]
                z = r.choice(fit[:2]) if fit else z
        for p in op['pts']:
            if xy != 'f8':
                for k in (0, 1):
                    m = 16 if xy[0] == 'i' else 1
                    while xy == 'f4' and abs(p[k]) // m >= 1 << 24:
                        m *= 2
                    p[k] = p[k] // m * m
            if z[0] in 'iu':
                p[2] = p[2] // 1000 * 1000
        op['dts'] = [z, xy, u]

    def meta(self, op):
        r = self.r
        k = r.random()
        op['files'] = [] if k < 0.25 else ['f{}.all'.format(r.randrange(9)) for _ in range(r.randint(1, 3))]
        op['mint'] = op['maxt'] = 0
        if self.chance(self.p['times']):
            op['mint'] = self.t0 + r.randrange(-5000000, 5000000)
            op['maxt'] = op['mint'] + r.randrange(1, 400000)
            k = r.random()
            if k < 0.1:
                op['mint'] = 0
            elif k < 0.2:
                op['maxt'] = 0
        op['bar'] = r.random() < 0.1
        return op

    def op_badadd(self):
        r = self.r
        kind = r.choice(self.p.get('bad', BAD))
        free = [n for n in self.p['names'] if n not in self.src]
        op = self.meta({'op': 'add', 'name': r.choice(free), 'pts': self.pts(r.randint(2, 5)), 'inp': 'np', 'vref': VREFS[self.vref0], 'epsg': self.epsg0})
        if kind == 'dup':
            if not self.src:
                return
            op['name'] = r.choice(sorted(self.src))
            op['inp'] = r.choice(self.p['inps'])
        elif kind == 'epsg':
            if not self.src or not self.epsg0:
                return
            op['epsg'] = 32612
        elif kind == 'vref':
            if not self.src or self.vref0 == 'none':
                return
            op['vref'] = r.choice([v for v in VREFS.values() if v != VREFS[self.vref0] and not ('MLLW' in v and 'MLLW' in VREFS[self.vref0])])
        else:
            if kind == 'fields' and not self.src:
                return
            if kind == 'xr2d':
                op['inp'] = 'xr'
            elif kind in ('nox', 'noy', 'noz', 'empty') and r.random() < 0.3:
                op['inp'] = r.choice(['xr', 'dask'])
            op['bad'] = kind
            if r.random() < 0.3 and not self.src:
                op['epsg'] = 32612
                op['vref'] = VREFS['mllwup']
        self.ops.append(op)

    def op_remove(self):
        if not self.src:
            return self.op_add()
        name = self.r.choice(sorted(self.src))
        self.total -= len(self.src.pop(name))
        self.gone.append(name)
        self.ops.append({'op': 'remove', 'name': name, 'bar': self.r.random() < 0.1})

    def op_rmunknown(self):
        free = [n for n in self.p['names'] + [None] if n not in self.src]
        n = self.r.choice([x for x in free if x is not None])
        self.ops.append({'op': 'remove', 'name': n})

    def op_grid(self):
        r, p = self.r, self.p
        if not self.src:
            return self.op_badgrid('empty') if p['w']['badgrid'] else self.op_add()
        clear = self.chance(p['clear'])
        alg = self.alg or r.choice(self.algs)
        if self.alg and self.chance(p['newalg']) and len(self.algs) > 1:
            alg = r.choice(self.algs)
            clear = clear or alg != self.alg
        op = {'op': 'grid', 'alg': alg, 'clear': clear, 'regrid': 'update' if self.chance(p['update']) else 'full', 'mode': r.choice(p['automodes']), 'res': 0,
              'bar': r.random() < 0.05, 'intres': r.random() < 0.3, 'dask': self.chance(p['dask'])}
        if not self.chance(p['auto']):
            op['res'] = self.lastres if self.lastres and self.chance(p['keepres']) else r.choice(self.ress)
            self.lastres = op['res']
        if not op['res'] and self.cfg['T'] >= 8192:
            op['mode'] = 'depth'
        self.alg = alg
        op['par'] = self.par() if alg == 'cube' else []
        self.ops.append(op)

    def par(self):
        """settings of cube: method, order, variance"""
        r = self.r
        if r.random() < 0.25:
            return []
        if not hasattr(self, 'par0') or r.random() < 0.3:
            self.par0 = [r.choice(['local', 'prior', 'prior', 'posterior', 'predict', '']), r.choice(['order1a', 'special', 'order1b', 'order2', '']), r.choice(['cube', 'input', ''])]
        return list(self.par0) if any(self.par0) else []

    def op_badgrid(self, kind=None):
        r, p = self.r, self.p
        kind = kind or r.choice(['alg', 'unknown', 'res', 'empty', 'mode', 'unc'])
        op = {'op': 'grid', 'alg': self.alg or 'mean', 'clear': False, 'regrid': r.choice(['full', 'update']), 'mode': 'depth', 'res': r.choice(self.ress)}
        if kind == 'alg':
            if not self.alg or not self.src:
                return
            op['alg'] = [a for a in self.algs + ['mean', 'shoalest'] if a != self.alg][0]
            if r.random() < 0.3:
                op['res'] = 0
        elif kind == 'unknown':
            op['alg'] = r.choice(['median', '', 'Mean', 'cubes', 'CUBE '])
            op['clear'] = r.random() < 0.5
        elif kind == 'res':
            op['res'] = r.choice([48, 3 * 16, 24, 80, 17, 100])
            op['clear'] = r.random() < 0.5
        elif kind == 'mode':
            op['mode'], op['res'] = r.choice(['foo', '', 'deep', 'depths']), 0
            op['clear'] = r.random() < 0.5
        elif kind == 'unc':   # cube without uncertainties, or without the estimator
            if self.cfg['tv'] and self.cfg['th'] and not p['nocube'] or not self.src:
                return
            op['alg'], op['clear'] = 'cube', r.random() < 0.7
            if r.random() < 0.3:
                op['res'] = 0
        elif kind == 'empty':
            if self.src:
                return
            op['res'] = r.choice([0, op['res']])
        self.ops.append(op)

    def op_mk(self):
        r = self.r
        op = {'op': 'mk', 'gt': r.choice(['single_resolution', 'variable_resolution_tile']), 'be': r.choice(['numpy', 'zarr']), 't': r.choice([16, 256, 1024, 4096]),
              's': r.choice([16, 8, 64, 128]), 'folder': r.random() < 0.3}
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.choice(['gt', 'be', 't', 's'])
            op[k] = {'gt': r.choice(['sr', '', 'VRGridTile', 'single', 'variable_resolution']), 'be': r.choice(['', 'hdf5', 'Zarr', 'memory']), 't': r.choice([1000, 3, 96, 1025]),
                     's': r.choice([100, 12, 127, 96])}[k]
        self.ops.append(op)

    def op_q(self):
        r, p = self.r, self.p
        self.ops.append({'op': 'q', 'seed': r.randrange(1 << 30), 'kinds': list(p['kinds']), 'n': r.randint(*p['nq']), 'names': sorted(self.src) + ['nosuch'],
                         'hot': [list(h[:2]) for h in self.hot], 'pool': [q[:2] for q in self.pool], 
                         'nods': p['nods'] + (['0'] if getattr(self, 'nonzero', True) and not self.chance(p['cube']) else []), 'lsmax': p['lsmax']})

    def op_reload(self):
        if self.cfg['disk'] and self.src:
            self.ops.append({'op': 'reload'})

    def op_saveload(self):
        if self.src:
            self.ops.append({'op': 'saveload', 'swap': self.chance(self.p['swap'])})
            self.cfg_saved = True

    def build(self):
        r, p = self.r, self.p
        self.config()
        n = r.randint(*p['nops'])
        if p.get('script'):   # the kinds of the operations in order, '|' between the choices
            for k in r.choice(p['script']).split():
                getattr(self, 'op_' + r.choice(k.split('|')))()
            return self.cfg, self.ops, self.twins()
        self.op_add()
        if self.chance(p['firstgrid']):
            self.op_grid()
        kinds = [k for k, v in p['w'].items() if v]
        wts = [p['w'][k] for k in kinds]
        while len(self.ops) < n:
            getattr(self, 'op_' + r.choices(kinds, wts)[0])()
            if p.get('regrid_after') and self.ops[-1]['op'] in ('add', 'remove') and self.chance(p['regrid_after']):
                self.op_grid()
        if p['endq'] and p['kinds']:
            if self.src and not any(o['op'] == 'grid' for o in self.ops[-2:]):
                self.op_grid()
            self.op_q()
        return self.cfg, self.ops, self.twins()

    def twins(self):
        t, c = self.p['twins'], self.cfg
        if not t:
            return []
        if t == 'storage':
            alls = [('mem', {'disk': False}), ('npy', {'disk': True, 'backend': 'numpy'}), ('zarr', {'disk': True, 'backend': 'zarr'})]
            me = 'mem' if not c['disk'] else ('npy' if c['backend'] == 'numpy' else 'zarr')
            rest = [a for a in alls if a[0] != me]
            return rest if self.chance(self.p.get('alltwins', 0.4)) else [self.r.choice(rest)]
        if t == 'live':   # never reloaded
            return [('live', {})]
        if t == 'dask':
            return [('par', {'dask': True})]
        raise ValueError(t)


# ---------------------------------------------------------------------- queries, made from what the grid reports at that moment
def queries(op, sess, g):
    """concrete queries for one q operation"""
    from session import iu, arr
    r = random.Random(op['seed'])
    cfg = sess.cfg
    out = []
    if g.is_empty:
        gridded = False
    else:
        gridded = not g.no_grid
    resl = [iu(x) for x in g.resolutions]
    leaves = []
    if not g.is_empty:
        for t in g.tiles.flat:
            if t is None:
                continue
            if hasattr(t, 'tiles'):
                leaves += [s for s in (t.tiles.flat if t.tiles is not None else []) if s is not None]
            else:
                leaves.append(t)
    held = sorted({iu(x) for lf in leaves for x in lf.cells})
    clean = bool(leaves) and all(len(lf.cells) == 1 and not lf.point_count_changed for lf in leaves)
    lays = ['intensity' if cfg['bs'] else 'depth', 'density'] + (['vertical_uncertainty'] if cfg['tv'] else []) + (['horizontal_uncertainty'] if cfg['th'] else [])
    if g.grid_algorithm == 'cube':
        lays = lays[:2] + ['total_uncertainty', 'hypothesis_count', 'hypothesis_ratio']
        # a resolution for which the estimator gave nothing at all is not asked for
        if any(all(np.isnan(arr(lf.cells[x][lays[0]])).all() for lf in leaves for x in lf.cells if iu(x) == q) for q in held):
            gridded = False
    one = len(held) == 1 and resl == held

    def res(free=True):
        if one and free and r.random() < 0.3:
            return 0
        return r.choice(held)

    def some():
        k = r.randint(1, min(op['lsmax'], len(lays)))
        return r.sample(lays, k)

    def nod():
        return r.choice(op['nods'])
    def cells(rs):
        return sum((iu(g.max_x) - iu(g.min_x)) * (iu(g.max_y) - iu(g.min_y)) // (x * x) for x in rs)
    kinds = op['kinds']
    for _ in range(op['n'] if len(kinds) > op['n'] else max(op['n'], 1)):
        k = r.choice(kinds)
        if k == 'attr':
            out.append({'q': 'attr'})
            continue
        if k in ('ext', 'facts'):
            out.append({'q': k})
            continue
        if k == 'nb':
            if g.is_empty:
                continue
            sub = cfg['vr'] and r.random() < 0.7
            if sub:
                lf = r.choice(leaves)
            else:
                lf = r.choice([t for t in g.tiles.flat if t is not None])
            z = cfg['S'] if sub else cfg['T']
            out.append({'q': 'nb', 'o': [iu(lf.min_x), iu(lf.min_y)], 'sub': bool(sub), 'buf': r.choice([0, 1, 2, z // 8, z // 4, z // 2, z - 1, z])})
            continue
        if not gridded or not held:
            if leaves and not held and k in REFQ and r.random() < 0.3:   # nothing was gridded yet: refused
                out.append({'q': k, 'ls': some(), 'r': r.choice([0, 16, 64]), 'nod': nod(), 'zpu': False, 'cb': True, 'aslist': r.random() < 0.5})
            continue
        if k in REFQ + ['chunks'] and len(resl) > 1 and r.random() < 0.12:   # which of the resolutions?  refused
            out.append({'q': k, 'ls': some(), 'r': 0, 'nod': nod(), 'zpu': False, 'cb': True, 'gd': False, 'md': 0, 'aslist': r.random() < 0.5})
            continue
        if k == 'layer':
            out.append({'q': 'layer', 'ls': some(), 'r': res(), 'nod': nod(), 'zpu': r.random() < 0.4, 'aslist': r.random() < 0.5})
        elif k == 'trim':
            out.append({'q': 'trim', 'ls': some(), 'r': res(), 'nod': nod(), 'zpu': r.random() < 0.4, 'aslist': r.random() < 0.5})
        elif k == 'surf':
            out.append({'q': 'surf', 'ls': some(), 'r': res(), 'nod': nod(), 'cb': r.random() < 0.5, 'aslist': True})
        elif k == 'xy':
            hx, hy = [], []
            e = [iu(g.min_x), iu(g.min_y), iu(g.max_x), iu(g.max_y)]
            for _i in range(r.randint(4, 10)):
                u = r.random()
                if u < 0.6 and (op['hot'] or op['pool']):
                    b = r.choice(op['hot'] + op['pool'])
                    q = r.choice(held)
                    d = r.choice([0, 0, 1, -1, 2 * q, 2 * q - 1, -2 * q, q])
                    d2 = r.choice([0, 0, 1, -1, 2 * q, 2 * q - 1, -2 * q, q])
                    x, y = 2 * b[0] + d, 2 * b[1] + d2
                elif u < 0.85:
                    x, y = r.randrange(2 * e[0], 2 * e[2]), r.randrange(2 * e[1], 2 * e[3])
                else:
                    x = r.choice([2 * e[0], 2 * e[2], 2 * e[0] - 1, 2 * e[2] - 1, 2 * e[2] + 50, 2 * e[0] - 2 * cfg['T']])
                    y = r.choice([2 * e[1], 2 * e[3], 2 * e[1] - 1, 2 * e[3] - 1, r.randrange(2 * e[1], 2 * e[3])])
                hx.append(x)
                hy.append(y)
            out.append({'q': 'xy', 'ls': [r.choice(lays)], 'r': r.choice([0, 0, r.choice(held)]), 'nod': nod(), 'hx': hx, 'hy': hy})
        elif k == 'tiles':
            out.append({'q': 'tiles', 'ls': some(), 'r': res(), 'nod': nod(), 'zpu': r.random() < 0.4, 'aslist': True})
        elif k == 'chunks':
            T = cfg['T']
            md = r.choice([0, T, T, 2 * T, 3 * T, T // 2, 2 * T + 1, T + T // 2])
            out.append({'q': 'chunks', 'ls': some(), 'r': res(), 'nod': nod(), 'zpu': r.random() < 0.4, 'gd': r.random() < 0.6, 'md': md, 'aslist': True})
        elif k == 'stats':
            if max(held) > 4096:
                continue
            out.append({'q': 'stats', 'ls': r.sample(lays, r.randint(1, len(lays)))})
        elif k in ('csv', 'tif', 'bag'):
            if k != 'csv' and not g.epsg:  # rasters need a coordinate system
                continue
            if cells(held) > (60000 if k == 'csv' else 400000):
                continue
            T = cfg['T']
            out.append({'q': k, 'r': r.choice([0, 0, r.choice(held)]), 'zpu': r.random() < 0.6, 'md': r.choice([0, 0, T, 2 * T]) if k != 'csv' else 0})
            out[-1]['ex'] = r.random() < 0.15   # the path asked for is taken
            if k == 'bag':
                out[-1]['opt'] = sorted(r.sample(BAGKEYS, r.choice([0, 0, 1, 2, len(BAGKEYS)])))
        elif k == 'xfmt':
            out.append({'q': 'xfmt', 'r': 0, 'fmt': r.choice(['kml', '', 'tiff', 'CSV2', 'bagg'])})
        elif k == 'cont':
            if not clean:
                continue
            out.append({'q': 'cont', 'name': r.choice(op['names']), 'r': res(), 'nod': r.choice(['nan'])})
        elif k == 'slope':
            if not clean:
                continue
            out.append({'q': 'slope', 'r': res()})
        elif k == 'plots':
            if max(held) > 4096 or cells(held) > 20000:
                continue
            out.append({'q': 'plots', 'ls': [r.choice(lays)], 'r': r.choice([0, 0, r.choice(held)]), 'nb': r.choice([1, 2, 5, 10, 50])})
        elif k == 'misc':
            out.append({'q': 'misc', 'plot': False})
        elif k == 'plot':
            out.append({'q': 'misc', 'plot': True})
        else:
            raise ValueError(k)
    return out
