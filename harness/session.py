"""Drives the real bathygrid code through scripted histories and records what it does as traces
(one JSON document per history) that TLC validates against spec/TraceBathy.tla.

Units in a trace: coordinates and resolutions are integers in 1/16 m, values are integers in mm.
The recorder only projects; it does not judge.
"""
import calendar
import contextlib
import copy
import glob
import importlib.util
import io
import os
import re
import shutil
import tempfile
import time
import traceback
import xml.etree.ElementTree as et

import numpy as np
import xarray as xr
import dask
import dask.array as da

from bathygrid.convenience import create_grid, load_grid
from bathygrid.maingrid import SRGrid, SRGridZarr, VRGridTile, VRGridTileZarr
from bathygrid.bgrid import BathyGrid
from bathygrid.utilities import formatted_string_to_utc_seconds, return_bag_vertical_wkt

CUBE = importlib.util.find_spec('bathycube') is not None   # the estimator (or its stand-in) is there
U = 16          # coordinate units per metre
NONE = -999999999
WILD = 8888888
FLT = ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty']
SLOPES = ['x_slope', 'y_slope']
INTS = ('density', 'hypothesis_count')
PARAMS = ('method', 'iho_order', 'variance_selection')   # settings of cube


def iu(v):
    """metres to coordinate units (a value off the 1/16 m lattice becomes WILD)"""
    if v is None:
        return WILD
    f = float(v) * U
    if not np.isfinite(f) or abs(f) > 2e9:
        return WILD
    r = int(round(f))
    return r if abs(f - r) < 1e-6 else WILD


def mm(v):
    f = float(v)
    if np.isnan(f):
        return NONE
    if not np.isfinite(f) or abs(f) > 30000:
        return WILD
    return int(round(f * 1000))


def arr(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, da.Array):
        return a.compute(scheduler='synchronous')
    return np.asarray(a)


def clip(n, hi=10 ** 9):
    n = int(n)
    return max(-hi, min(hi, n))


def par_list(p):
    """settings of cube as <<method, order, variance>> (empty: none given)"""
    if p is None:
        return []
    p = dict(p)
    return [str(p.pop(k, '')) for k in PARAMS] + ['{}={}'.format(k, v) for k, v in sorted(p.items())]


def stamp(v):
    """UTC seconds of the time a source was added"""
    try:
        return calendar.timegm(time.strptime(v, '%Y%m%d_%H%M%S'))
    except Exception:
        return -1


class Recorder:
    """Point table and gridded-array table of one trace."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.pts = []        # [x, y, z, tv, th]
        self.byval = {}      # tuple -> list of ids
        self.owner = {}      # id -> name
        self.gone = set()    # ids of removed or refused soundings (equal ones that are still there are matched first)
        self.grids = []
        self.gkey = {}

    def add_pts(self, name, pts):
        ids = []
        for p in pts:
            p = list(p)
            if not self.cfg['tv']:
                p[3] = 0
            if not self.cfg['th']:
                p[4] = 0
            self.pts.append(p)
            i = len(self.pts)
            self.byval.setdefault(tuple(p), []).append(i)
            self.owner[i] = name
            ids.append(i)
        return ids

    def ident(self, rec, name, used):
        names = rec.dtype.names
        t = (iu(rec['x']), iu(rec['y']), mm(rec['z']), mm(rec['tvu']) if 'tvu' in names else 0,
             mm(rec['thu']) if 'thu' in names else 0)
        cand = self.byval.get(t, [])
        best = [i for i in cand if i not in used]
        if not best:
            return 0
        i = min(best, key=lambda k: (k in self.gone, self.owner[k] != name))
        used.add(i)
        return i

    def grid_id(self, cells, depth_key):
        lays = sorted(k for k in cells if k not in SLOPES)
        arrs = {k: arr(cells[k]) for k in lays}
        shapes = set(a.shape for a in arrs.values())
        n = -1
        ent = []
        if len(shapes) == 1:
            shp = list(shapes)[0]
            if len(shp) == 2 and shp[0] == shp[1]:
                n = int(shp[0])
                d = arrs.get('density')
                z = arrs.get(depth_key)
                tv = arrs.get('vertical_uncertainty', arrs.get('total_uncertainty'))
                th = arrs.get('horizontal_uncertainty', arrs.get('hypothesis_ratio'))
                hc = arrs.get('hypothesis_count')
                have = np.zeros(shp, dtype=bool)
                for k, a in arrs.items():
                    have |= (~np.isnan(a)) if a.dtype.kind == 'f' else (a != 0)
                for r, c in np.argwhere(have)[:MANY]:
                    ent.append([int(r), int(c), clip(d[r, c]) if d is not None else -1,
                                mm(z[r, c]) if z is not None else NONE,
                                mm(tv[r, c]) if tv is not None else NONE,
                                mm(th[r, c]) if th is not None else NONE,
                                clip(hc[r, c]) if hc is not None else 0])
        key = (n, tuple(lays), tuple(map(tuple, ent)))
        if key not in self.gkey:
            self.grids.append({'n': n, 'lay': lays, 'cells': ent})
            self.gkey[key] = len(self.grids)
        return self.gkey[key]

    # ---------------------------------------------------------------- projection of a grid object
    def obs(self, g):
        try:
            return self._obs(g)
        except Exception as e:  # a state that cannot even be read
            o = self.blank()
            o['err'] = '{}: {}'.format(type(e).__name__, str(e)[:120])
            return o

    def blank(self):
        return {'err': '', 'typ': '', 'ext': [], 'shape': [], 'nt': 0, 'tiles': [], 'leaves': [], 'resl': [], 'conts': [], 'cts': [],
                'mean': 0, 'epsg': 0, 'vref': '', 'mint': 0, 'maxt': 0, 'alg': '', 'gmode': '', 'pc': 0, 'pcc': False,
                'bs': False, 'lay': [], 'tsz': 0, 'ssz': 0, 'gpar': []}

    def _obs(self, g):
        o = self.blank()
        cfg = self.cfg
        o['typ'] = type(g).__name__
        o['nt'] = int(g.number_of_tiles or 0)
        o['resl'] = [iu(r) for r in g.resolutions]
        o['conts'] = sorted([k, [str(f) for f in v]] for k, v in g.container.items())
        o['cts'] = sorted([k, stamp(v)] for k, v in g.container_timestamp.items())
        o['mean'] = mm(g.mean_depth)
        o['epsg'] = int(g.epsg) if g.epsg else 0
        o['vref'] = g.vertical_reference or ''
        o['mint'] = formatted_string_to_utc_seconds(g.min_time) if g.min_time else 0
        o['maxt'] = formatted_string_to_utc_seconds(g.max_time) if g.max_time else 0
        o['alg'] = g.grid_algorithm or ''
        o['gmode'] = str(g.grid_resolution) if g.grid_resolution is not None else ''
        o['pc'] = clip(g.points_count)
        o['pcc'] = bool(g.point_count_changed)
        o['bs'] = bool(g.is_backscatter)
        o['lay'] = sorted(x for x in g.return_layer_names() if x not in SLOPES)
        o['tsz'] = iu(g.tile_size)
        o['ssz'] = iu(g.subtile_size)
        o['gpar'] = par_list(g.grid_parameters)
        if g.is_empty:
            return o
        o['ext'] = [iu(g.min_x), iu(g.min_y), iu(g.max_x), iu(g.max_y)]
        o['shape'] = [int(s) for s in g.tiles.shape]
        used = set()
        leaves = []
        for row in range(g.tiles.shape[0]):
            for col in range(g.tiles.shape[1]):
                t = g.tiles[row, col]
                if t is None:
                    continue
                o['tiles'].append([iu(t.min_x), iu(t.min_y), row, col])
                if isinstance(t, BathyGrid):
                    if t.tiles is None:
                        continue
                    for sub in t.tiles.flat:
                        if sub is not None:
                            leaves.append(self.leaf(sub, used))
                else:
                    leaves.append(self.leaf(t, used))
        leaves.sort(key=lambda lf: lf['o'])
        o['leaves'] = leaves
        return o

    def leaf(self, t, used):
        data = arr(t.data) if t.data is not None else np.array([])
        c = []
        seen = np.zeros(data.size, dtype=bool)
        for name, (a, b) in sorted(t.container.items(), key=lambda kv: kv[0]):
            ids = [self.ident(rec, name, used) for rec in data[a:b]]
            if seen[a:b].any() or b > data.size or a < 0:
                ids.append(0)
            seen[a:b] = True
            c.append([name, sorted(ids)])
        rest = [self.ident(rec, '', used) for rec in data[~seen]]
        if rest:
            c.append(['(unattributed)', sorted(rest)])
        g = sorted([iu(r), self.grid_id(cells, 'intensity' if self.cfg['bs'] else 'depth')] for r, cells in t.cells.items())
        return {'o': [iu(t.min_x), iu(t.min_y)], 'sz': iu(t.max_x - t.min_x), 'n': int(t.points_count), 'c': c, 'p': bool(t.point_count_changed), 'g': g}


def make_data(cfg, pts, inp='np', bad='', dts=None, order=None):
    f = cfg.get('dt', 'f8')
    xy = cfg.get('xydt', 'f8')
    z, xy, u = dts or (f, xy, f)
    dt = [('x', xy), ('y', xy), ('z', z)]
    if cfg['tv']:
        dt.append(('tvu', u))
    if cfg['th']:
        dt.append(('thu', u))
    if order:
        dt.sort(key=lambda e: order.index(e[0]))
    a = np.empty(len(pts), dtype=dt)
    for k, i, s in (('x', 0, U), ('y', 1, U), ('z', 2, 1000), ('tvu', 3, 1000), ('thu', 4, 1000)):
        if k in a.dtype.names:
            a[k] = np.array([p[i] for p in pts], dtype='f8') / s
    if bad == 'empty':
        a = a[:0]
    elif bad in ('nox', 'noy', 'noz'):
        a = np.lib.recfunctions.drop_fields(a, bad[2])
    elif bad == 'plain':
        a = np.column_stack([a['x'], a['y'], a['z']])
    elif bad == 'list':
        return [list(map(float, p)) for p in pts]
    elif bad == 'none':
        return None
    elif bad == 'fields':
        a = np.lib.recfunctions.append_fields(a, 'tvu', a['z'], usemask=False) if 'tvu' not in a.dtype.names \
            else np.lib.recfunctions.drop_fields(a, 'tvu')
    if inp == 'strided' and isinstance(a, np.ndarray) and a.dtype.names:   # a view that is not contiguous
        b = np.zeros(2 * len(a) + 1, dtype=a.dtype)
        b[1::2] = a
        return b[1::2]
    if inp == 'ro':
        a.setflags(write=False)
        return a
    if inp == 'dask' and bad != 'empty':
        return da.from_array(a, chunks=max(1, (len(a) + 1) // 2))
    if inp[:2] == 'xr' and bad not in ('plain',):
        ds = xr.Dataset({k: (['sounding'], a[k]) for k in a.dtype.names})
        if inp == 'xrx':    # a variable that is no part of a sounding
            ds['beam'] = (['sounding'], np.arange(len(a)))
        elif inp == 'xrc':  # with an index and attributes
            ds = ds.assign_coords(sounding=np.arange(len(a)) + 100)
            ds.attrs['note'] = 'x'
        if bad == 'xr2d':
            ds = xr.Dataset({k: (['a', 'b'], a[k].reshape(1, -1)) for k in a.dtype.names})
        return ds
    return a


def untouched(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, xr.Dataset):
        return a.identical(b)
    return True


def scribble(a):
    if isinstance(a, np.ndarray):
        if not a.flags.writeable:
            a.setflags(write=True)
        if a.dtype.names:
            for n in a.dtype.names:
                a[n] = -77
    elif isinstance(a, xr.Dataset):
        for n in a:
            a[n].values[...] = -77


import numpy.lib.recfunctions  # noqa: E402  (used through np.lib above)


def new_grid(cfg, folder):
    ox, oy = cfg['ox'] / U, cfg['oy'] / U
    T, S = cfg['T'] / U, cfg['S'] / U
    T = int(T) if cfg.get('inttile') and T == int(T) else T
    if ox == 0 and oy == 0:
        return create_grid(folder_path=folder, grid_type='variable_resolution_tile' if cfg['vr'] else 'single_resolution',
                           grid_backend=cfg['backend'], tile_size=T, subtile_size=S, is_backscatter=cfg['bs'])
    cls = {(False, 'numpy'): SRGrid, (False, 'zarr'): SRGridZarr, (True, 'numpy'): VRGridTile, (True, 'zarr'): VRGridTileZarr}[(cfg['vr'], cfg['backend'])]
    kw = dict(min_x=ox, min_y=oy, tile_size=T, output_folder=folder, is_backscatter=cfg['bs'])
    if cfg['vr']:
        kw['subtile_size'] = S
    return cls(**kw)


STRICT = []   # set when the same history lost its tasks again and again: then the grid is to blame


class ClusterTrouble(BaseException):
    """the dask cluster lost a task; says nothing about the grid, the history ends before this operation"""


class Obj:
    """one real grid: the primary of a trace, or a twin that runs the same history in another configuration"""

    def __init__(self, kind, cfg, base, dask_client=None):
        self.kind = kind
        self.cfg = cfg
        self.base = base
        self.client = dask_client
        self.n = 0
        self.folder = os.path.join(base, kind, 'g') if cfg['disk'] else ''
        self.g = new_grid(cfg, self.folder)
        self.attach()

    def attach(self):
        if self.client is not None:
            self.g.client = self.client

    def call(self, fn):
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                return True, '', fn()
        except Exception as e:
            if type(e).__name__ in ('FutureCancelledError', 'FuturesCancelledError', 'CancelledError', 'CommClosedError', 'KilledWorker') and not STRICT:
                raise ClusterTrouble(str(e))
            return False, '{}: {}'.format(type(e).__name__, str(e)[:160]), None

    def add(self, op):
        data = make_data(self.cfg, op['pts'], op.get('inp', 'np'), op.get('bad', ''), op.get('dts'), op.get('order'))
        files = list(op.get('files') or [])
        keep = copy.deepcopy((data, files))
        if self.cfg.get('pause') and self.kind == 'p':   # sources that are added in different seconds
            time.sleep(1.02)
        t0 = int(time.time())
        # numbers as they come: integers, texts, numpy numbers, times with a fraction
        epsg, mint, maxt = (op.get(k) or None for k in ('epsg', 'mint', 'maxt'))
        form = (op.get('mint') or op.get('maxt') or 0) % 4
        if form in (1, 2):
            epsg = epsg and (str(epsg) if form == 1 else np.int64(epsg))
            mint, maxt = mint and (mint + .75 if form == 1 else np.float64(mint)), maxt and (maxt + .25 if form == 1 else np.int64(maxt))
        r = self.call(lambda: self.g.add_points(data, op['name'], files or None, epsg, op.get('vref') or None, mint, maxt, progress_bar=bool(op.get('bar'))))
        self.when = [t0, int(time.time())]
        # what was handed in still belongs to the caller: the grid leaves it alone, and does not depend on it any more
        self.kept = untouched(data, keep[0]) and files == keep[1]
        scribble(data)
        files.append('edited later')
        return r

    def remove(self, op):
        return self.call(lambda: self.g.remove_points(op['name'], progress_bar=bool(op.get('bar'))))

    def grid(self, op, use_dask=False):
        res = op['res'] / U if op['res'] else None
        if res is not None and op.get('intres') and res == int(res):
            res = int(res)
        par = {k: v for k, v in zip(PARAMS, op['par']) if v} if op.get('par') else None
        keep = copy.deepcopy(par)
        r = self.call(lambda: self.g.grid(op['alg'], res, clear_existing=op['clear'], auto_resolution_mode=op.get('mode', 'depth'),
                                          regrid_option=op['regrid'], use_dask=use_dask, progress_bar=bool(op.get('bar')), grid_parameters=par))
        self.kept = par == keep
        if par is not None:   # the caller's again
            par.clear()
            par['method'] = 'edited later'
        ret = r[2]
        if isinstance(ret, list):
            r = (r[0], r[1], list(ret))
            ret.append(-7.0)
        return r

    def gmode(self, op):
        """what the grid reports as its resolution setting after this run"""
        if not op['res']:
            return 'AUTO_' + op.get('mode', 'depth').upper()
        res = op['res'] / U
        return str(int(res)) if op.get('intres') and res == int(res) else str(res)

    def mk(self, op):
        def f():
            d = os.path.join(self.base, 'mk', 'g') if op.get('folder') else ''
            if d:
                shutil.rmtree(os.path.join(self.base, 'mk'), ignore_errors=True)
            g = create_grid(folder_path=d, grid_type=op['gt'], grid_backend=op['be'], tile_size=op['t'], subtile_size=op['s'])
            return [type(g).__name__, iu(g.tile_size), iu(g.subtile_size)]
        return self.call(f)

    def reload(self, op):
        def f():
            self.g = load_grid(self.folder)
            self.attach()
        return self.call(f)

    def saveload(self, op):
        """save to a new folder and load it again; op['swap']: go on with the loaded object, else with the saved one"""
        def f():
            self.n += 1
            os.makedirs(os.path.join(self.base, self.kind), exist_ok=True)
            fld = os.path.join(self.base, self.kind, 's{}'.format(self.n))
            self.g.save(fld, progress_bar=bool(op.get('bar')))
            new = load_grid(fld)
            self.folder = fld
            self.cfg['disk'] = True
            return new
        return self.call(f)


# BAG options: path in the metadata, whether it is a code list value, a value to ask for, the documented value without one
BAGOPTS = {
    'individual_name': ('individualName', False, 'Indi Vidual', 'unknown'),
    'organizational_name': ('organisationName', False, 'Orga Nization', 'unknown'),
    'position_name': ('positionName', False, 'Posi Tion', 'unknown'),
    'attr_date': ('dateStamp/Date', False, '2019-02-03', r'\d{4}-\d\d-\d\d'),
    'vert_crs': ('referenceSystemInfo/code/CharacterString', False, 'VERT_CS["MLLW depth",VERT_DATUM["MLLW",2005],AXIS["Gravity-related height",UP]]', ''),
    'abstract': ('abstract', False, 'An abstract', ''),
    'process_step_description': ('LI_ProcessStep/description', False, 'A process step', 'Generated By GDAL.*'),
    'attr_datetime': ('LI_ProcessStep/dateTime', False, '2019-02-03T04:05:06', r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d'),
    'restriction_code': ('useConstraints/MD_RestrictionCode', True, 'license', 'otherRestrictions'),
    'other_constraints': ('otherConstraints', False, 'Other constraints', 'unknown'),
    'classification': ('MD_ClassificationCode', True, 'restricted', 'unclassified'),
    'security_user_note': ('userNote', False, 'A note', 'none'),
}
VERTDOWN = 'VERT_CS["MLLW depth",VERT_DATUM["MLLW",2005],AXIS["Depth",DOWN]]'   # a BAG is positive up: the axis is turned
MANY = 900   # more cells than any history has soundings: an answer with more of them is wrong anyway and is recorded in part


def nodata_of(tag):
    return np.float32(np.nan) if tag == 'nan' else float(tag)


def is_nod(a, layer, tag):
    if layer in INTS:
        nd = 0 if tag == 'nan' else int(float(tag))
        return (a == 0) | (a == nd)   # cells without soundings hold 0 inside the tiles, the nodata value outside of them
    if tag == 'nan':
        return np.isnan(a)
    return a == np.float32(float(tag))


def ents(a, layer, tag):
    a = arr(a)
    bad = is_nod(a, layer, tag)
    out = []
    for r, c in np.argwhere(~bad)[:MANY]:
        v = a[r, c]
        out.append([int(r), int(c), clip(v) if layer in INTS else mm(v)])
    return out


def sval(v, layer, tag):
    """value of a point query"""
    f = float(v)
    if layer in INTS:
        nd = [0.0] if tag == 'nan' else [0.0, float(int(float(tag))), float(np.float32(float(tag)))]
        return 0 if np.isnan(f) or f in nd else clip(f)
    if tag == 'nan':
        return mm(f)
    return NONE if np.float32(f) == np.float32(float(tag)) else mm(f)


def half(v):
    """metres to 1/32 m"""
    f = float(v) * 2 * U
    return clip(round(f)) if np.isfinite(f) else WILD


def spoil(*arrays):
    """overwrites what a query returned: it belongs to the caller, and the grid must not depend on it"""
    for a in arrays:
        if isinstance(a, (list, tuple)):
            spoil(*a)
        elif isinstance(a, np.ndarray) and a.flags.writeable:
            if a.dtype.names:
                for n in a.dtype.names:
                    a[n] = 55
            elif a.dtype.kind in 'fiu':
                a[...] = 55


class Queries:
    """each query returns a JSON-able dict with a fixed set of fields"""

    def __init__(self, session, obj):
        self.s, self.o, self.g, self.st = session, obj, obj.g, []

    def run(self, q):
        ok, exc, res = self.o.call(lambda: getattr(self, 'q_' + q['q'])(q))
        return ok, exc, res

    def res(self, q):
        return q['r'] / U if q['r'] else None

    def lay(self, q):
        return q['ls'] if len(q['ls']) > 1 or q.get('aslist') else q['ls'][0]

    def q_layer(self, q):
        d = self.g.get_layers_by_name(self.lay(q), self.res(q), nodatavalue=nodata_of(q['nod']), z_positive_up=q['zpu'])
        if d is None:
            return {'shape': [], 'ent': []}
        out = {'shape': [int(x) for x in d[0].shape], 'ent': [ents(a, l, q['nod']) for a, l in zip(d, q['ls'])]}
        spoil(d)
        return out

    def q_trim(self, q):
        d, mn, mx = self.g.get_layers_trimmed(self.lay(q), self.res(q), nodatavalue=nodata_of(q['nod']), z_positive_up=q['zpu'])
        out = {'shape': [int(x) for x in d[0].shape], 'ent': [ents(a, l, q['nod']) for a, l in zip(d, q['ls'])],
               'mn': [int(x) for x in mn], 'mx': [int(x) for x in mx]}
        spoil(d)
        return out

    def q_surf(self, q):
        x, y, d, mn, mx = self.g.return_surf_xyz(self.lay(q), self.res(q), q['cb'], nodatavalue=nodata_of(q['nod']))
        out = {'shape': [int(i) for i in d[0].shape], 'ent': [ents(a, l, q['nod']) for a, l in zip(d, q['ls'])],
               'mn': [int(i) for i in mn], 'mx': [int(i) for i in mx], 'xs': [half(v) for v in x], 'ys': [half(v) for v in y]}
        spoil(x, y, d)
        return out

    def q_xy(self, q):
        xs = np.array(q['hx'], dtype='f8') / (2 * U)
        ys = np.array(q['hy'], dtype='f8') / (2 * U)
        l, t = q['ls'][0], q['nod']
        a = self.g.layer_values_at_xy(xs, ys, l, self.res(q), nodatavalue=nodata_of(t))
        lst = self.g.layer_values_at_xy(list(xs), list(ys), l, self.res(q), nodatavalue=nodata_of(t))
        sv = [self.g.layer_values_at_xy(float(x), float(y), l, self.res(q), nodatavalue=nodata_of(t)) for x, y in zip(xs, ys)]
        out = {'av': [sval(v, l, t) for v in a], 'lv': [sval(v, l, t) for v in lst], 'sv': [sval(v, l, t) for v in sv],
               'tv': [sval(v, l, t) for v in self.g.layer_values_at_xy(tuple(xs), tuple(ys), l, self.res(q), nodatavalue=nodata_of(t))],
               'same': [half(v) for v in xs] == list(q['hx']) and [half(v) for v in ys] == list(q['hy']), 'ref': True}
        for a, b in ((xs, ys[:-1]), (xs[:1], ys), (float(xs[0]), ys), (list(xs), float(ys[0]))):   # places without an x or a y
            try:
                self.g.layer_values_at_xy(a, b, l, self.res(q), nodatavalue=nodata_of(t))
                out['ref'] = False
            except Exception:
                pass
        spoil(a, lst)
        return out

    def q_tiles(self, q):
        out = []
        for geo, dcol, drow, cnt, data in self.g.get_tiles_by_resolution(self.res(q), self.lay(q), nodatavalue=nodata_of(q['nod']), z_positive_up=q['zpu']):
            if not data:
                continue
            shp = list(data.values())[0].shape
            out.append({'g': [iu(geo[0]), iu(geo[1]), iu(geo[2]), iu(geo[3]), iu(geo[4]), iu(geo[5])], 'rc': [int(dcol), int(drow), int(cnt)],
                        'shape': [int(i) for i in shp], 'ent': [ents(data[l], l, q['nod']) if l in data else [] for l in q['ls']]})
            spoil(list(data.values()))
        return {'tl': out}

    def q_chunks(self, q):
        out = []
        kw = {'override_maximum_chunk_dimension': q['md'] / U} if q['md'] else {}
        for geo, mdim, data in self.g.get_chunks_of_tiles(self.res(q), self.lay(q), nodatavalue=nodata_of(q['nod']), z_positive_up=q['zpu'], for_gdal=q['gd'], **kw):
            shp = data[q['ls'][0]].shape
            out.append({'g': [iu(geo[0]), iu(geo[1]), iu(geo[2]), iu(geo[3]), iu(geo[4]), iu(geo[5])], 'md': iu(mdim),
                        'shape': [int(i) for i in shp], 'ent': [ents(data[l], l, q['nod']) for l in q['ls']]})
            spoil(list(data.values()))
        return {'ch': out}

    def q_stats(self, q):
        g = self.g
        cc = sorted([iu(r), int(n)] for r, n in g.cell_count.items())
        dc = sorted(clip(v) for v in g.density_count)
        dm = sorted(clip(round(v * 65536)) for v in g.density_per_square_meter)
        out = {'cc': cc, 'dc': dc, 'dm': dm, 'dv': [], 'mv': [], 'area': clip(round(float(g.coverage_area_square_meters) * 256), 2 * 10 ** 9),
               'nm': clip(round(float(g.coverage_area_square_nm) * 3434290.012 * 256), 2 * 10 ** 9), 'lv': []}
        if not self.s.cfg['bs']:
            d, z = g.density_count_vs_depth
            out['dv'] = sorted([clip(a), mm(b)] for a, b in zip(d, z)) if len(d) == len(z) else [[-1, -1]]
            d, z = g.density_per_square_meter_vs_depth
            out['mv'] = sorted([clip(round(a * 65536)), mm(b)] for a, b in zip(d, z)) if len(d) == len(z) else [[-1, -1]]
        for l in q['ls']:
            v = g.return_layer_values(l)
            out['lv'].append(sorted(clip(x) if l in INTS else mm(x) for x in v))
        return out

    # ------------------------------------------------------------------ exports
    def tmp(self):
        self.s.nexp += 1
        d = os.path.join(self.s.base, 'x{}'.format(self.s.nexp))
        os.makedirs(d)
        return d

    def q_csv(self, q):
        d = self.tmp()
        try:
            self.taken(d, q, q.get('fn', 'out') + '.csv')
            self.g.export(os.path.join(d, q.get('fn', 'out') + '.csv'), 'csv', z_positive_up=q['zpu'], resolution=self.res(q))
            out = []
            kept = self.kept(d, q, q.get('fn', 'out') + '.csv')
            for f in sorted(os.listdir(d)):
                m = re.match(re.escape(q.get('fn', 'out')) + r'_([0-9.]+)\.csv$', f)
                with open(os.path.join(d, f)) as fh:
                    hdr = fh.readline().split()
                    rows = [ln.split() for ln in fh if ln.strip()]
                keep = [i for i, nm in enumerate(hdr) if nm not in SLOPES]  # slopes are there once they were asked for
                keep = keep[:2] + sorted(keep[2:], key=lambda i: hdr[i])  # the columns come in no promised order
                hdr, rows = [hdr[i] for i in keep], [[rw[i] for i in keep] if len(rw) > max(keep) else rw for rw in rows]
                ent = []
                for rw in rows:
                    if len(ent) >= MANY:
                        break
                    e = [half(rw[0]), half(rw[1])]
                    for nm, v in zip(hdr[2:], rw[2:]):
                        e.append(clip(round(float(v))) if nm in INTS else mm(float(v)))
                    if not all((nm in INTS and v == 0) or v == NONE for nm, v in zip(hdr[2:], e[2:])):
                        ent.append(e)
                ent.sort()  # rows of the same x come in no promised order
                out.append({'r': iu(float(m.group(1))) if m else WILD, 'hdr': hdr, 'ent': ent})
            return {'fl': out, 'kept': kept}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def taken(self, d, q, name):
        # a file that already has the name asked for
        if q.get('ex'):
            with open(os.path.join(d, name), 'w') as f:
                f.write('somebody else')

    def kept(self, d, q, name):
        # it is still there as it was, the export has another name: with the time; everything goes on under the name asked for
        if not q.get('ex'):
            return True
        p = os.path.join(d, name)
        if not os.path.isfile(p) or open(p, errors='replace').read() != 'somebody else':
            return False
        os.remove(p)
        base = os.path.splitext(name)[0]
        for f in sorted(os.listdir(d)):
            m = re.fullmatch(re.escape(base) + r'_\d{8}_\d{6}_(.*)', f)
            if not m:
                return False
            os.rename(os.path.join(d, f), os.path.join(d, base + '_' + m.group(1)))
        return True

    def q_xfmt(self, q):
        d = self.tmp()
        try:
            try:
                self.g.export(os.path.join(d, 'out.dat'), q['fmt'])
            except ValueError:
                return {'refused': True, 'left': len(os.listdir(d))}
            return {'refused': False, 'left': len(os.listdir(d))}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def raster(self, path):
        from osgeo import gdal
        ds = gdal.Open(path)
        gt = ds.GetGeoTransform()
        srs = ds.GetSpatialRef()
        epsg = int(srs.GetAuthorityCode(None) or 0) if srs is not None else 0
        if not epsg and srs is not None:
            epsg = int(srs.GetAuthorityCode('PROJCS') or srs.GetAuthorityCode('GEOGCS') or 0)
        nod = ds.GetRasterBand(1).GetNoDataValue()
        bands, names = [], []
        for i in range(ds.RasterCount):
            b = ds.GetRasterBand(i + 1)
            names.append(b.GetDescription())
            a = b.ReadAsArray()
            nd = b.GetNoDataValue()
            nd = nod if nd is None else nd
            e = []
            for r, c in np.argwhere(~((a == nd) | np.isnan(a)))[:MANY]:
                e.append([int(r), int(c), mm(a[r, c])])
            bands.append(e)
        out = {'g': [iu(gt[0]), iu(gt[1]), iu(gt[2]), iu(gt[3]), iu(gt[4]), iu(gt[5])], 'shape': [ds.RasterYSize, ds.RasterXSize],
               'epsg': epsg, 'bn': names, 'ent': bands, 'nod': clip(nod or 0)}
        ds = None
        return out

    @staticmethod
    def fileno(f):
        # out_<resolution>_<number>.<ext>
        m = re.fullmatch(r'out_([0-9.]+)_([0-9]+)\.\w+', f)
        return [iu(float(m.group(1))), int(m.group(2))] if m else [0, 0]

    @staticmethod
    def rxl(p):
        # the registration file next to a BAG: the code of the coordinate system in it, 0 when there is none
        from pyproj import CRS
        if not os.path.exists(p):
            return 0
        w = et.parse(p).getroot().find('coordinate_system/wkt')
        try:
            return int(CRS.from_wkt(w.text.strip()).to_epsg() or 0)
        except Exception:
            return 0

    def q_tif(self, q):
        d = self.tmp()
        try:
            kw = {'override_maximum_chunk_dimension': q['md'] / U} if q['md'] else {}
            self.taken(d, q, 'out.tif')
            self.g.export(os.path.join(d, 'out.tif'), 'geotiff', z_positive_up=q['zpu'], resolution=self.res(q), **kw)
            return {'kept': self.kept(d, q, 'out.tif'), 'fl': [dict(self.raster(os.path.join(d, f)), nm=self.fileno(f)) for f in sorted(os.listdir(d)) if f.endswith('.tif')]}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def bag_opts(xml):
        # the metadata options of a BAG: 'v' the value that was asked for, 'd' the documented value when nothing was asked, 'x' anything else
        root = et.fromstring(xml)
        for e in root.iter():
            e.tag = e.tag.split('}')[-1]
        out = []
        for k, (path, attr, want, default) in BAGOPTS.items():
            path = path.split('/')
            el = [e for e in root.iter(path[0])]
            for p in path[1:]:
                el = [x for e in el for x in e.iter(p)]
            el = el[-1:]
            got = '' if not el else el[0].get('codeListValue') or '' if attr else ''.join(el[0].itertext())
            got = re.sub(r'\s+', ' ', got.strip())
            if k == 'vert_crs':
                v = 'v' if got in (want, want.replace('"', "'")) else 'd' if got.startswith('VERT_CS["unknown"') else 'x'
            else:
                v = 'v' if got == want else 'd' if re.fullmatch(default, got) else 'x'
            out.append([k, v])
        return out

    def q_bag(self, q):
        import h5py
        d = self.tmp()
        try:
            kw = {'override_maximum_chunk_dimension': q['md'] / U} if q['md'] else {}
            for k in q['opt']:
                kw[k] = VERTDOWN if k == 'vert_crs' else BAGOPTS[k][2]
            self.taken(d, q, 'out.bag')
            self.g.export(os.path.join(d, 'out.bag'), 'bag', resolution=self.res(q), **kw)
            out = []
            kept = self.kept(d, q, 'out.bag')
            for f in sorted(os.listdir(d)):
                if not f.endswith('.bag'):
                    continue
                p = os.path.join(d, f)
                r = self.raster(p)
                with h5py.File(p, 'r') as h5:
                    at = h5['BAG_root']['elevation'].attrs
                    r['emm'] = [mm(at['Minimum Elevation Value']), mm(at['Maximum Elevation Value'])]
                    r['umm'] = []
                    at = h5['BAG_root']['uncertainty'].attrs if 'uncertainty' in h5['BAG_root'] else {}
                    if 'Minimum Uncertainty Value' in at:
                        r['umm'] = [mm(at['Minimum Uncertainty Value']), mm(at['Maximum Uncertainty Value'])]
                    xml = h5['BAG_root']['metadata'][:].tobytes().decode(errors='replace').replace('\x00', '')
                if r['g'][5] > 0 and r['g'][0] == 0 and r['g'][3] == 0:  # GDAL does not read back a geotransform with a zero origin, the file has it
                    cp = re.findall(r'<gml:coordinates[^>]*>([^<]*)<', xml)
                    rs = re.findall(r'<gco:Measure[^>]*>([^<]*)<', xml)
                    if cp and rs:
                        ll, ur = [tuple(float(v) for v in c.split(',')) for c in cp[0].split()]
                        m = float(rs[0])
                        r['g'] = [iu(ll[0] - m / 2), iu(m), 0, iu(ur[1] + m / 2), 0, iu(-m)]
                tm = []
                for k in ('beginPosition', 'endPosition'):
                    m = re.findall(r'<[^<>]*' + k + r'[^<>]*>([^<]*)<', xml)
                    tm.append(formatted_string_to_utc_seconds(m[0]) if m else 0)
                r['tm'] = tm
                r['opt'] = self.bag_opts(xml)
                r['nm'] = self.fileno(f)
                w = re.sub(r'\s+', ' ', return_bag_vertical_wkt(p).strip())
                r['vw'] = 'v' if w == BAGOPTS['vert_crs'][2] else 'd' if w.startswith('VERT_CS["unknown"') else 'x'
                r['rxl'] = self.rxl(os.path.splitext(p)[0] + '.bag_rxl')
                out.append(r)
            return {'fl': out, 'kept': kept}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------------ others
    def q_cont(self, q):
        d = self.g.get_layers_by_name(q['name'], self.res(q), nodatavalue=nodata_of(q['nod']))
        if d is None:
            return {'shape': [], 'ent': []}
        out = {'shape': [int(x) for x in d[0].shape], 'ent': [ents(d[0], 'depth', q['nod'])]}
        spoil(d)
        return out

    def q_slope(self, q):
        d = self.g.get_layers_by_name(['x_slope', 'y_slope'], self.res(q))
        if d is None:
            return {'shape': [], 'ent': []}
        out = {'shape': [int(x) for x in d[0].shape], 'ent': [ents(d[0], 'depth', 'nan'), ents(d[1], 'depth', 'nan')]}
        spoil(d)
        return out

    def find(self, o):
        for t in self.g.tiles.flat:
            if t is not None and [iu(t.min_x), iu(t.min_y)] == o:
                return t
        return None

    def q_nb(self, q):
        g = self.g
        parent = g
        if q['sub']:
            for t in g.tiles.flat:
                if t is not None and t.min_x * U <= q['o'][0] < t.max_x * U and t.min_y * U <= q['o'][1] < t.max_y * U:
                    parent = t
        til = None
        for t in parent.tiles.flat:
            if t is not None and [iu(t.min_x), iu(t.min_y)] == q['o']:
                til = t
        d = parent.get_tile_neighbor_points(til, q['buf'] / U)
        used = set()
        ids = [] if d is None else sorted(self.s.rec.ident(x, '', used) for x in arr(d))
        spoil(d)
        nb = [[iu(t.min_x), iu(t.min_y)] if t else [] for t in parent.get_tile_neighbors(til)]
        return {'ids': ids, 'nb': nb}

    def q_attr(self, q):
        a = self.g.return_attribution()   # the times differ from twin to twin and are no part of the answer that is compared with theirs
        self.st = sorted([k[7:], stamp(v['time'])] for k, v in a.items() if k.startswith('source_'))
        src = sorted([k[7:], [str(f) for f in v['multibeam_lines']]] for k, v in a.items() if k.startswith('source_'))
        t = [formatted_string_to_utc_seconds(a[k]) if a[k] else 0 for k in ('minimum_time_utc', 'maximum_time_utc')]
        emp = self.g.is_empty
        res = self._attr(a, src, t, emp)
        for v in a.values():   # the report is the caller's
            if isinstance(v, dict):
                for w in v.values():
                    if isinstance(w, list):
                        w.append('edited later')
                v['edited'] = 'later'
            elif isinstance(v, list):
                v.append(-7.0)
        return res

    def _attr(self, a, src, t, emp):
        return {'src': src, 'epsg': int(a['epsg'] or 0), 'vref': a['vertical_reference'] or '', 'tm': t,
                'ext': [] if emp else [iu(a['minimum_x']), iu(a['minimum_y']), iu(a['maximum_x']), iu(a['maximum_y'])],
                'wh': [] if emp else [iu(a['width']), iu(a['height'])], 'nt': int(a['tile_count'] or 0),
                'resl': [iu(r) for r in a['resolutions']], 'alg': a['grid_algorithm'] or '', 'gmode': str(a['grid_resolution']) if a['grid_resolution'] is not None else '',
                'gp': par_list(a['grid_parameters']), 'tsz': iu(a['tile_size']), 'ssz': iu(a['subtile_size']), 'un': sorted(self.g.return_unique_containers()),
                'uc': sorted(self.g.unique_container_entries)}

    def q_facts(self, q):
        """the small questions: what is there, and what is printed"""
        g = self.g
        txt = repr(g)
        body = txt.split('Containers:\n')[1].split('Backscatter Mosaic:')[0]
        num = re.findall(r'(?:Northing|Easting): (\S+)', txt)
        mean = re.findall(r'Mean (Depth|Intensity): (\S+)', txt)
        return {'emp': bool(g.is_empty), 'ng': bool(g.no_grid), 'ht': bool(g.has_tiles), 'pu': bool(g.positive_up), 'dk': g.depth_key,
                'ln': sorted(x for x in g.layer_names if x not in SLOPES), 'rl': sorted(x for x in g.return_layer_names() if x not in SLOPES),
                'hv': bool(g.has_vertical_uncertainty), 'hh': bool(g.has_horizontal_uncertainty), 'pc': clip(g.points_count),
                'uc': [str(x) for x in g.unique_container_entries], 'sp': [[k, k.split('__')] for k in g.container],
                'pl': body == ''.join(' - {}\n'.format(k) for k in g.unique_container_entries),
                'pr': [iu(x) for x in re.findall(r'[0-9.]+', re.findall(r'Resolutions \(meters\): \[(.*)\]', txt)[0])],
                'pn': [iu(num[i]) for i in (2, 0, 3, 1)] if not g.is_empty else [], 'pm': mean[0][0], 'pv': mm(mean[0][1]), 'pb': 'Backscatter Mosaic: True' in txt,
                'pe': int((re.findall(r'EPSG: (\d+)', txt) or ['0'])[0])}

    def q_plots(self, q):
        """what the plots draw"""
        import matplotlib.pyplot as plt
        g, nb = self.g, q['nb']
        out = {'mesh': [], 'hist': [], 'line': []}
        try:
            plt.close('all')
            g.plot(q['ls'][0], self.res(q))
            for m in plt.gca().collections:
                c = np.asarray(m.get_coordinates())
                a = np.ma.asarray(m.get_array())
                a = a.reshape(c.shape[0] - 1, c.shape[1] - 1)
                lo, hi = np.minimum(c[:-1, :-1], c[1:, 1:]), np.maximum(c[:-1, :-1], c[1:, 1:])
                e = []
                for i, j in np.argwhere(~(np.ma.getmaskarray(a) | is_nod(np.ma.getdata(a), q['ls'][0], 'nan')))[:MANY]:
                    e.append([iu(lo[i, j][0]), iu(lo[i, j][1]), iu(hi[i, j][0] - lo[i, j][0]), clip(a[i, j]) if q['ls'][0] in INTS else mm(a[i, j])])
                out['mesh'].append(e)
            for kind, fn in (('density', g.plot_density_histogram), ('permeter', g.plot_density_per_square_meter_histogram), ('z', g.plot_z_histogram),
                             ('vertical_uncertainty', g.plot_vertical_uncertainty_histogram), ('horizontal_uncertainty', g.plot_horizontal_uncertainty_histogram),
                             ('total_uncertainty', g.plot_total_uncertainty_histogram)):
                plt.close('all')
                fn(nb)
                f = 4096 if kind == 'permeter' else 1 if kind == 'density' else 1000   # times 16
                ps = plt.gca().patches
                if ps:
                    out['hist'].append({'k': kind, 'h': [clip(round(p.get_height())) for p in ps],
                                        'e': [clip(round(p.get_x() * f * 16), 2 * 10 ** 9) for p in ps] + [clip(round((ps[-1].get_x() + ps[-1].get_width()) * f * 16), 2 * 10 ** 9)]})
            if not self.s.cfg['bs']:
                for kind, fn in (('density', g.plot_density_vs_depth), ('permeter', g.plot_density_per_square_meter_vs_depth)):
                    plt.close('all')
                    fn(nb)
                    f = 4096 if kind == 'permeter' else 1
                    for ln in plt.gca().lines:
                        out['line'].append({'k': kind, 'p': [[mm(x), clip(round(y * f * 16), 2 * 10 ** 9)] for x, y in zip(ln.get_xdata(), ln.get_ydata())]})
            return out
        finally:
            plt.close('all')

    def q_ext(self, q):
        e = self.g.return_extents()
        return {'e': [iu(e[0][0]), iu(e[0][1]), iu(e[1][0]), iu(e[1][1])] if not self.g.is_empty else []}

    def q_misc(self, q):
        """calls whose answer is not modelled; they must leave the grid alone and answer the same again"""
        g = self.g
        out = [re.sub(r'Path: .*', '', repr(g)), str(g.has_tiles), str(g.positive_up), g.depth_key, str(g.no_grid), str(sorted(g.layer_names)) if not q.get('sl') else '',
               str(g.has_vertical_uncertainty), str(g.has_horizontal_uncertainty)]
        if not g.is_empty:
            bx, by = g.get_tile_boundaries()
            out.append('{} {}'.format(float(np.sum(bx)), float(np.sum(by))))
        if q.get('plot') and not g.no_grid:
            import matplotlib.pyplot as plt
            g.plot(self.g.depth_key)
            plt.close('all')
            g.plot_z_histogram()
            g.plot_density_histogram()
            g.plot_density_per_square_meter_histogram()
            plt.close('all')
        return {'txt': out}


class Session:
    """runs one script against the primary object and its twins and returns the trace"""

    def __init__(self, tid, cfg, ops, twins=(), client=None, reload_alt=None):
        self.tid = tid
        self.cfg = dict(cfg)
        self.ops = ops
        self.base = tempfile.mkdtemp(prefix='bgv_', dir=os.environ.get('BGV_SCRATCH'))
        self.nexp = 0
        self.rec = Recorder(self.cfg)
        self.reload_alt = cfg['disk'] if reload_alt is None else reload_alt
        self.client = client
        self.cut = ''   # why the history ended early: trouble in the dask cluster
        self.twins_spec = twins

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def run(self):
        try:
            self.open()
            for op in self.ops:
                if not self.advance(op):
                    break
            return self.trace()
        finally:
            self.close()

    def open(self):
        cfg = self.cfg
        self.prim = Obj('p', dict(cfg), self.base, self.client)
        self.twins = []
        self.evs = []
        for kind, over in self.twins_spec:
            c = dict(cfg)
            c.update(over)
            self.twins.append(Obj(kind, c, self.base, self.client if over.get('dask') else None))

    def advance(self, op):
        try:
            self.evs.append(self.step(op, self.prim, self.twins))
            return True
        except ClusterTrouble as e:
            self.cut = str(e) or 'trouble'
        except Exception as e:  # the grid is in a state in which it cannot even be asked
            tb = traceback.extract_tb(e.__traceback__)
            self.evs.append({'op': op['op'], 'ok': False, 'exc': '{}: {} at {}'.format(type(e).__name__, str(e)[:160], ['{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[-4:]]),
                             'a': {}, 'ret': [], 'alts': [], 'obs': self.rec.blank(), 'fatal': True})
        return False

    def trace(self):
        cfg, evs = self.cfg, self.evs
        cf = {'vr': cfg['vr'], 'T': cfg['T'], 'S': cfg['S'] if cfg['vr'] else cfg['T'], 'ssz': cfg['S'] if cfg['vr'] else 0, 'ox': cfg['ox'], 'oy': cfg['oy'], 'bs': cfg['bs'],
              'tv': cfg['tv'], 'th': cfg['th'], 'cube': CUBE, 'f4': cfg.get('dt', 'f8') == 'f4'}
        return {'id': self.tid, 'cfg': cf, 'pts': self.rec.pts or [[0, 0, 0, 0, 0]], 'grids': self.rec.grids or [{'n': 0, 'lay': [], 'cells': []}], 'ev': evs, 'cut': self.cut}

    def step(self, op, prim, twins):
        k = op['op']
        ev = {'op': k, 'ok': True, 'exc': '', 'a': {}, 'ret': [], 'alts': []}
        if k == 'q':
            return self.step_q(op, prim, twins, ev)
        ids = self.rec.add_pts(op['name'], op['pts']) if k == 'add' and not op.get('bad') else []
        results = []
        loaded = None
        for ob in [prim] + twins:
            if k == 'add':
                r = ob.add(op)
                if ob is prim and not r[0]:
                    self.rec.gone.update(ids)
            elif k == 'remove':
                if ob is prim:
                    self.rec.gone.update(i for i, n in self.rec.owner.items() if n == op['name'])
                r = ob.remove(op)
            elif k == 'grid':
                r = ob.grid(op, use_dask=bool(op.get('dask') if ob is prim else ob.cfg.get('dask')))
            elif k == 'mk':
                r = ob.mk(op)
            elif k == 'reload':
                r = ob.reload(op) if ob.cfg['disk'] and ob.kind != 'live' else (True, '', None)
            elif k == 'saveload':
                r = ob.saveload(op)
                if r[0]:
                    o2 = self.rec.obs(r[2])
                    if ob is prim:
                        loaded = o2
                    else:
                        ev['alts'].append({'k': 'saved_' + ob.kind, 'rl': True, 'ok': True, 'exc': '', 'obs': o2, 'qeq': []})
                    if op.get('swap'):
                        ob.g = r[2]
                        ob.attach()
            else:
                raise ValueError(k)
            results.append(r)
        ev['ok'], ev['exc'] = results[0][0], results[0][1]
        ret = results[0][2]
        if k == 'grid':
            ev['ret'] = [iu(x) for x in ret] if isinstance(ret, list) else []
            ev['a'] = {'alg': op['alg'], 'res': op['res'], 'mode': op.get('mode', 'depth'), 'clear': op['clear'], 'regrid': op['regrid'], 'dask': bool(op.get('dask')),
                       'par': list(op.get('par') or []), 'gm': prim.gmode(op), 'kept': prim.kept}
        elif k == 'add':
            ev['a'] = {'name': op['name'], 'ids': ids, 'files': [str(f) for f in op.get('files') or []], 'epsg': op.get('epsg') or 0, 'vref': op.get('vref') or '',
                       'mllw': 'MLLW' in (op.get('vref') or ''), 'mint': op.get('mint') or 0, 'maxt': op.get('maxt') or 0, 'bad': op.get('bad') or '',
                       'posup': 'height (h)",up' in (op.get('vref') or ''), 'kept': prim.kept, 'when': prim.when}
        elif k == 'remove':
            ev['a'] = {'name': op['name']}
        elif k == 'mk':
            ev['a'] = {'gt': op['gt'], 'be': op['be'], 't': op['t'], 's': op['s'], 'typ': ret[0] if ret else '', 'sz': ret[1:] if ret else []}
        elif k == 'saveload':
            ev['a'] = {'swap': bool(op.get('swap'))}
        ev['obs'] = self.rec.obs(prim.g)
        if loaded is not None:
            ev['alts'].append({'k': 'saved', 'rl': True, 'ok': True, 'exc': '', 'obs': loaded, 'qeq': []})
        for ob, r in zip(twins, results[1:]):
            ev['alts'].append({'k': ob.kind, 'rl': False, 'ok': r[0], 'exc': r[1], 'obs': self.rec.obs(ob.g), 'qeq': []})
        self.reloads(prim, twins, ev)
        return ev

    def reloads(self, prim, twins, ev):
        """what a fresh process would find in the folder after this operation"""
        for ob in [prim] + twins:
            if not ob.cfg['disk'] or not self.reload_alt or not os.path.isdir(ob.folder):
                continue
            if not os.listdir(ob.folder):  # nothing was ever accepted into this grid
                continue
            if ev['op'] == 'reload' and ob.kind != 'live':  # it was just read
                continue
            ok, exc, g2 = ob.call(lambda: load_grid(ob.folder))
            if ok:
                o2 = self.rec.obs(g2)
            else:
                o2 = self.rec.blank()
            ev['alts'].append({'k': 'reload' if ob is prim else 'reload_' + ob.kind, 'rl': True, 'ok': ok, 'exc': exc, 'obs': o2, 'qeq': []})

    def step_q(self, op, prim, twins, ev):
        import gen
        qs = []
        res = []
        todo = op['qs'] if 'qs' in op else gen.queries(op, self, prim.g)
        for q in todo:
            fq = Queries(self, prim)
            ok, exc, r = fq.run(q)
            ok2, exc2, r2 = fq.run(q)
            rec = dict(q)
            for drop in ('fn', 'aslist', 'plot', 'sl'):
                rec.pop(drop, None)
            rec['ok'], rec['exc'] = ok, exc
            rec['rep'] = bool(ok == ok2 and r == r2)
            rec['st'] = fq.st
            rec['res'] = r if r is not None else {}
            if r is None:
                rec['res'] = {'none': True}
            qs.append(rec)
            res.append((ok, r))
        ev['a'] = {'qs': qs}
        ev['obs'] = self.rec.obs(prim.g)
        for ob in twins:
            eq = []
            for q, (ok, r) in zip(todo, res):
                ok3, exc3, r3 = Queries(self, ob).run(q)
                eq.append(bool(ok3 == ok and r3 == r))
                if not eq[-1] and os.environ.get('BGV_DBG'): print('DIFF', ob.kind, q, r, r3)
            ev['alts'].append({'k': ob.kind, 'rl': False, 'ok': True, 'exc': '', 'obs': self.rec.obs(ob.g), 'qeq': eq})
        self.reloads(prim, twins, ev)
        return ev


class Pair:
    """two histories in one process, each with a grid of its own, in turns: every step of the other grid is a stuttering step of the first one, whose trace is returned"""

    def __init__(self, main, other, order):
        self.main, self.other, self.order = main, other, order

    def run(self):
        todo = list(self.other.ops)
        try:
            self.main.open()
            self.other.open()
            k = 0
            for op in self.main.ops:
                while todo and self.order[k % len(self.order)]:
                    k += 1
                    if not self.other.advance(todo.pop(0)):
                        todo = []
                    if not self.main.advance({'op': 'q', 'qs': []}):
                        return self.main.trace()
                k += 1
                if not self.main.advance(op):
                    break
            return self.main.trace()
        finally:
            self.main.close()
            self.other.close()
