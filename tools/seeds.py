"""The planted bugs (see mkseeds.py)."""
T, B, G, K, V, A = 'bathygrid/tile.py', 'bathygrid/bgrid.py', 'bathygrid/grids.py', 'bathygrid/backends.py', 'bathygrid/grid_variables.py', 'bathygrid/algorithms.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, pre=""):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre))


seed('C03-shift-only-next-source', 'C03',
     [(T, "                if self.container[cont][0] >= remove_end:", "                if self.container[cont][0] == remove_end:")],
     'three or more sources in one tile; the first is removed, then a later one',
     'removing a source shifts only the range of the directly following source; the ranges of later ones point at the wrong soundings, so the next removal takes away soundings of another source',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
for k, n in enumerate('abcd'):
    g.add_points(pts([(k + i + .5, i + .5, 10. * k + i, .1, .1) for i in range(3)]), n, **Q)
g.remove_points('a', **Q)
g.remove_points('c', **Q)
left = sorted(float(z) for z in np.asarray(g.tiles.flat[0].data['z']))
check(left == [10, 11, 12, 30, 31, 32], 'soundings left after removing a and c: %s' % left)
''')

seed('C11-batch-indices', 'C11',
     [(B, """                    self._grid_parallel_worker(data_for_workers, progress_bar, tile_indices)
                    tile_indices = []
                    data_for_workers = []""", """                    self._grid_parallel_worker(data_for_workers, progress_bar, tile_indices)
                    data_for_workers = []""")],
     'parallel gridding of more tiles than there are workers (a second batch)',
     'the list of tile indices is not reset between the batches, so the results of the second batch are put in the places of the first',
     '''
from dask.distributed import Client
def make(dask):
    g = create_grid(grid_type='single_resolution', tile_size=64)
    g.add_points(pts([(64. * i + 3.5, 64. * j + 3.5, 10. * i + j, .1, .1) for i in range(3) for j in range(2)]), 'a', **Q)
    g.grid('mean', 1.0, use_dask=dask, **Q)
    return g
c = Client(n_workers=2, threads_per_worker=1, processes=False, dashboard_address=None)
a, b = make(False), make(True)
c.close()
check(same(a.get_layers_by_name('depth')[0], b.get_layers_by_name('depth')[0]), 'parallel gridding differs from sequential gridding')
''')

seed('C25-slopes-kept', 'C25',
     [(T, """                self.cell_indices[resolution] = self.cell_indices[resolution][msk]
                self._clear_temp_data(resolution)
""", """                self.cell_indices[resolution] = self.cell_indices[resolution][msk]
"""),
      (T, """        self._clear_temp_data(resolution)

        self.grid_parameters = grid_parameters
        if resolution not in self.cells or algorithm != self.algorithm:
""", """        self.grid_parameters = grid_parameters
        if resolution not in self.cells or algorithm != self.algorithm:
            self._clear_temp_data(resolution)
""")],
     'slopes asked for, then a source removed, then gridded again at the same resolution without clearing, then slopes asked for again',
     'the slope layers computed before the removal are returned again',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
xy = [(1., 1.), (9., 2.), (3., 12.), (13., 14.), (7., 5.)]
g.add_points(pts([(x, y, 50 + x, .1, .1) for x, y in xy]), 'a', **Q)
g.add_points(pts([(x + 1, y, 90 - 3 * x + y, .1, .1) for x, y in xy]), 'b', **Q)
g.grid('mean', 16.0, **Q)
g.get_layers_by_name('x_slope')
g.remove_points('b', **Q)
g.grid('mean', 16.0, **Q)
s = g.get_layers_by_name('x_slope')[0][0, 0]
check(abs(s - 1) < 1e-3, 'x slope of z = 50 + x is %s' % s)
''')

seed('C22-mean-for-shoalest', 'C22',
     [(T, """                if self.algorithm == 'mean':
                    self._run_mean_grid(resolution, only_container=layer)""", """                if self.algorithm in ('mean', 'shoalest'):
                    self._run_mean_grid(resolution, only_container=layer)""")],
     "a grid made with the shoalest algorithm asked for one source's layer where that source has several soundings in a cell",
     "the source's layer holds the mean instead of the least depth",
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (1.6, 1.6, 20., .1, .1)]), 'a', **Q)
g.add_points(pts([(1.5, 1.7, 1., .1, .1)]), 'b', **Q)
g.grid('shoalest', 1.0, **Q)
v = g.get_layers_by_name('a')[0][1, 1]
check(v == 10., 'layer of source a is %s, its least depth is 10' % v)
''')

seed('C12-density-unweighted', 'C12',
     [(T, "            max_resolution = np.sum(resolution_estimate * counts) / np.sum(counts)", "            max_resolution = np.mean(resolution_estimate)")],
     'automatic resolution by density in a tile whose coarse cells are unevenly surveyed',
     'the estimate is no longer weighted with the number of soundings',
     '''
rows = []
for i in range(4):
    for j in range(4):
        n = 1 if (i + j) % 2 else 400
        rows += [(16 * i + 16 * ((k * 7) % n) / n, 16 * j + 16 * ((k * 3) % n) / n, 15., .1, .1) for k in range(n)]
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts(rows), 'a', **Q)
r = g.grid('mean', auto_resolution_mode='density', **Q)
c = np.array([1 if (i + j) % 2 else 400 for i in range(4) for j in range(4)])
est = (np.sqrt(2 * 5 * 1.75 / (c / 256.)) * c).sum() / c.sum()
want = min(x for x in [.25, .5, 1, 2, 4, 8, 16, 32, 64] if x >= est)
check(r == [want], 'resolution %s, the weighted estimate %s asks for %s' % (r, est, want))
''')

seed('C17-bag-times-first-file', 'C17',
     [(B, "                _set_temporal_extents(resfile, self.min_time, self.max_time)\n", "                if chunk_count == 1:\n                    _set_temporal_extents(resfile, self.min_time, self.max_time)\n")],
     'a BAG export that is split into several files, of a grid with times',
     'only the first file of a resolution carries the time range',
     '''
import h5py, glob
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (100.5, 1.5, 30., .1, .1)]), 'a', crs=26917, vertical_reference='waterline', min_time=1500000000, max_time=1500000100, **Q)
g.grid('mean', 1.0, **Q)
g.export(os.path.join(scratch, 'out.bag'), 'bag', override_maximum_chunk_dimension=64)
files = sorted(glob.glob(os.path.join(scratch, '*.bag')))
check(len(files) == 2, 'files %s' % files)
for f in files:
    with h5py.File(f, 'r') as h:
        m = h['BAG_root']['metadata'][:].tobytes().decode()
    check('2017-07-14T02:40:00' in m and '2017-07-14T02:41:40' in m, 'no times in %s' % os.path.basename(f))
''')

seed('C19-mllw-one-side', 'C19',
     [(B, "            if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):", "            if not (self.vertical_reference.find('MLLW') != -1 or vertical_reference.find('MLLW') != -1):")],
     'a grid with an MLLW-based reference given data with another reference (or the other way round)',
     'the addition is accepted and the vertical reference of the grid replaced',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', vertical_reference='NOAA MLLW depth 1', **Q)
try:
    g.add_points(pts([(1.5, 1.5, 20., .1, .1)]), 'b', vertical_reference='ellipsoid', **Q)
    ok = False
except ValueError:
    ok = True
check(ok and g.points_count == 1 and g.vertical_reference == 'NOAA MLLW depth 1', 'conflicting vertical reference accepted')
''')

seed('C21-density-vs-depth-resolution', 'C21',
     [(T, """            msk = density > 0
            density_per_meter.extend((density[density > 0] / (rez ** 2)).tolist())
            depth_values.extend(depth[msk].tolist())""", """            msk = density > 0
            density_per_meter.extend((density[density > 0] / (self.resolutions[0] ** 2)).tolist())
            depth_values.extend(depth[msk].tolist())""")],
     'a tile that holds results at two resolutions',
     'the paired density list divides by the cell size of the first resolution only',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g.grid('mean', 4.0, **Q)
check(sorted(g.density_per_square_meter) == sorted(g.density_per_square_meter_vs_depth[0]), 'the two lists differ: %s %s' % (g.density_per_square_meter, g.density_per_square_meter_vs_depth[0]))
''')

seed('C23-tile-mode-forgotten', 'C23',
     [(V, "                     'grid_parameters', 'point_count_changed', 'is_backscatter']", "                     'grid_parameters', 'point_count_changed']")],
     'a backscatter grid reopened, then gridded at another resolution',
     'reopened tiles forget that they hold backscatter and report depth',
     '''
f = os.path.join(scratch, 'g')
g = create_grid(f, grid_type='single_resolution', grid_backend='numpy', tile_size=64, is_backscatter=True)
g.add_points(pts([(1.5, 1.5, -10., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g = load_grid(f)
g.grid('mean', 2.0, **Q)
check('intensity' in g.tiles.flat[0].cells[2.0], 'layers of a backscatter tile: %s' % list(g.tiles.flat[0].cells[2.0]))
''')

seed('C24-right-neighbour-border', 'C24',
     [(B, """                newdata = tils[1].data[tils[1].data['x'] <= (tils[1].min_x + buffer_value)]
                data.append(newdata)
            else:""", """                newdata = tils[1].data[tils[1].data['x'] < (tils[1].min_x + buffer_value)]
                data.append(newdata)
            else:""")],
     'a sounding of the right neighbour exactly at the buffer distance',
     'that sounding is not returned',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (72., 1.5, 30., .1, .1), (73., 1.5, 30., .1, .1)]), 'a', **Q)
d = g.get_tile_neighbor_points(g.tiles[0, 0], 8.0)
check(d is not None and sorted(np.asarray(d['x']).tolist()) == [72.], 'neighbour points %s' % d)
''')

seed('C26-max-time-needs-min', 'C26',
     [(B, "        if max_time:\n            max_time = int(max_time)\n", "        if max_time and (min_time or not self.max_time):\n            max_time = int(max_time)\n")],
     'an addition that gives only its maximum time, after one that gave times',
     'the reported time range does not cover that addition',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', min_time=1500000000, max_time=1500000100, **Q)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'b', max_time=1600000100, **Q)
check(g.return_attribution()['maximum_time_utc'] == '2020-09-13T12:28:20', 'maximum time %s' % g.max_time)
''')

seed('C08-flag-not-stored', 'C08',
     [(V, "                     'grid_parameters', 'point_count_changed', 'is_backscatter']", "                     'grid_parameters', 'is_backscatter']")],
     'soundings added or removed, then the grid reopened before gridding',
     'reopened tiles report no pending changes',
     '''
f = os.path.join(scratch, 'g')
g = create_grid(f, grid_type='single_resolution', grid_backend='zarr', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
check(load_grid(f).point_count_changed, 'pending change forgotten')
''')

seed('C09-zarr-old-resolutions', 'C09',
     [(K, "                if fldr[:4] == 'cell':", "                if fldr[:4] == 'cell' and any(str(res) in fldr for res in tile.cells):", 1)],
     'a zarr grid cleared and gridded at another resolution, then reopened',
     'the old resolution is left in the folder and turns up again after reopening',
     '''
f = os.path.join(scratch, 'g')
g = create_grid(f, grid_type='single_resolution', grid_backend='zarr', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g.grid('mean', 2.0, clear_existing=True, **Q)
check(list(load_grid(f).tiles.flat[0].cells) == [2.0], 'reopened tile holds %s' % list(load_grid(f).tiles.flat[0].cells))
''')

seed('C01-later-sources-cast', 'C01',
     [(T, "                self.data = self.data.compute()\n            self.data = np.concatenate([self.data, data])", "                self.data = self.data.compute()\n            self.data = np.concatenate([self.data, data.astype(self.data.dtype)])")],
     'the first source of a tile in single precision and a later one in double precision',
     'the soundings of the later source are rounded to the precision of the first one',
     '''
g = create_grid(grid_type='single_resolution', tile_size=1024)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)], f='f4'), 'a', **Q)
g.add_points(pts([(500.123456789, 2.123456789, 1000.123456, .1, .1)]), 'b', **Q)
z = np.asarray(g.tiles.flat[0].data['z'])[1]
check(z == 1000.123456, 'depth kept as %r' % z)
''')

seed('C05-least-uncertainty', 'C05',
     [(A, "        thu_shoalest = thu[depth_idx]\n", "        thu_shoalest = np.minimum.reduceat(thu[cell_sort], uidx, axis=0)\n")],
     'a cell with several soundings where the shoalest one has not the least horizontal uncertainty',
     'the horizontal uncertainty is the least of the cell, not the one of the shoalest sounding',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .3, .5), (1.6, 1.6, 20., .1, .2)]), 'a', **Q)
g.grid('shoalest', 1.0, **Q)
v = g.get_layers_by_name('horizontal_uncertainty')[0][1, 1]
check(abs(v - .5) < 1e-6, 'horizontal uncertainty %s, the shoalest sounding has 0.5' % v)
''')

seed('C10-second-save', 'C10',
     [(K, '''        if folderpath:
            self.output_folder = folderpath
            self._save_grid()''', '''        if folderpath:
            if not self.output_folder or self.name.endswith('_Root'):
                self.output_folder = folderpath
            self._save_grid()''')],
     'a variable resolution grid saved to one folder and then to another',
     'the sub grids keep writing to the first folder, the second one is incomplete',
     '''
g = create_grid(grid_type='variable_resolution_tile', tile_size=256, subtile_size=64)
g.add_points(pts([(10.5, 10.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g.save(os.path.join(scratch, 'one'), **Q)
g.save(os.path.join(scratch, 'two'), **Q)
h = load_grid(os.path.join(scratch, 'two'))
check(h.points_count == 1 and same(h.get_layers_by_name('depth')[0], g.get_layers_by_name('depth')[0]), 'second copy is incomplete')
''')

seed('C10-disk-layer-values', 'C10',
     [(T, '''                lvalues = self.cells[rez][layer]
                if isinstance(lvalues, darray):
                    lvalues = lvalues.compute()
''', '''                lvalues = self.cells[rez][layer]
''')],
     'the list of layer values of a grid on disk',
     'works in memory only',
     '''
g = create_grid(os.path.join(scratch, 'g'), grid_type='single_resolution', tile_size=64)
g.add_points(pts([(10.5, 10.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
try:
    v = g.return_layer_values('depth').tolist()
except Exception as e:
    v = repr(e)
check(v == [20.], 'layer values on disk: %s' % v)
''')


seed('C02-corner-on-edge', 'C02',
     [(G, "            if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than\n                nearest_higher_x += self.tile_size\n            if nearest_higher_y == self.max_y:\n                nearest_higher_y += self.tile_size\n",
          "            if nearest_higher_x == self.max_x and nearest_higher_y == self.max_y:  # higher corner cant be on the edge, our binning relies on it being less than\n                nearest_higher_x += self.tile_size\n                nearest_higher_y += self.tile_size\n")],
     'an addition whose greatest coordinate lies exactly on a tile edge in one direction but not in the other',
     'the extents are not extended in that direction, the sounding on the edge has no tile',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
try:
    g.add_points(pts([(5., 5., 11., .1, .1), (64., 5., 12., .1, .1)]), 'b', **Q)
except Exception as e:
    check(False, 'a sounding at x = 64 cannot be added: %r' % e)
check(g.points_count == 2 and g.max_x > 64, 'extents end at %s' % g.max_x)
''')

seed('C02-left-growth', 'C02',
     [(G, "            x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]\n", "            x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][0]\n")],
     'a later addition to the west of the grid and not to the south',
     'the tiles are put down in the wrong columns of the new array',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(70., 5., 11., .1, .1)]), 'a', **Q)
g.add_points(pts([(5., 5., 12., .1, .1)]), 'b', **Q)
for t in g.tiles.flat:
    if t:
        x, y = np.asarray(t.data['x']), np.asarray(t.data['y'])
        check(bool(((x >= t.min_x) & (x < t.max_x) & (y >= t.min_y) & (y < t.max_y)).all()), 'tile %s holds a sounding it does not cover' % t.name)
''')

seed('C04-integer-sum', 'C04',
     [(A, "    depth_sum = np.add.reduceat(depth[cell_sort], uidx, axis=0)\n", "    depth_sum = np.add.reduceat(depth[cell_sort], uidx, axis=0, dtype=depth.dtype)\n")],
     'values given as small integers (intensities in one byte), several in a cell',
     'the sum is taken in the number type of the points and overflows',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64, is_backscatter=True)
p = np.zeros(3, dtype=[('x', 'f8'), ('y', 'f8'), ('z', 'i1')])
p['x'], p['y'], p['z'] = 1.5, 1.5, [-70, -71, -72]
g.add_points(p, 'a', **Q)
g.grid('mean', 1.0, **Q)
v = float(g.get_layers_by_name('intensity')[0][1, 1])
check(v == -71, 'mean of -70 -71 -72 is %s' % v)
''')

seed('C06-index-of-other-resolution', 'C06',
     [(T, """            for resolution in self.cell_indices:
                self.cell_indices[resolution] = np.append(""", """            for resolution in self.cells:
                self.cell_indices[resolution] = np.append(""")],
     'gridded at one resolution, then cleared and gridded at another, more points added to the tile, then gridded at the first one again',
     'the remembered cells of the first resolution do not cover the added soundings',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g.grid('mean', 2.0, clear_existing=True, **Q)
g.add_points(pts([(5.5, 5.5, 20., .1, .1)]), 'b', **Q)
try:
    g.grid('mean', 1.0, clear_existing=True, **Q)
    v = g.get_layers_by_name('depth')[0][5, 5]
except Exception as e:
    v = repr(e)
check(v == 20., 'the cell of source b is %s' % v)
''')

seed('C07-parallel-index', 'C07',
     [(B, """            if tile:
                if regrid_option == 'update':
                    if not clear_existing:""", """            if tile:
                tile_indices.append(cnt)
                if regrid_option == 'update':
                    if not clear_existing:""", 1),
      (B, """                    self._load_tile_data_to_memory(tile)
                tile_indices.append(cnt)
""", """                    self._load_tile_data_to_memory(tile)
""")],
     'parallel update gridding where an unchanged tile comes before the changed one',
     'the regridded tile is put in the place of the unchanged one',
     '''
from dask.distributed import Client
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (65.5, 1.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
g.add_points(pts([(67.5, 1.5, 30., .1, .1)]), 'b', **Q)
c = Client(n_workers=1, threads_per_worker=1, processes=False, dashboard_address=None)
g.grid('mean', 1.0, regrid_option='update', use_dask=True, **Q)
c.close()
d = g.get_layers_by_name('depth')[0]
check(d[1, 1] == 10 and d[1, 65] == 20 and d[1, 67] == 30, 'after a parallel update: %s %s %s' % (d[1, 1], d[1, 65], d[1, 67]))
''')

seed('C13-update-keeps-list', 'C13',
     [(B, """        self.resolutions = []

        if use_dask:
            self._grid_parallel(""", """        if regrid_option != 'update' or clear_existing:
            self.resolutions = []

        if use_dask:
            self._grid_parallel(""")],
     'a variable resolution grid where a changed tile gets another resolution in an update run, so nothing is left at the old one',
     'the reported resolutions still name the resolution no tile holds any more',
     '''
g = create_grid(grid_type='variable_resolution_tile', tile_size=128, subtile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.add_points(pts([(70.5, 1.5, 10., .1, .1)]), 'k', **Q)
first = g.grid('mean', **Q)
g.remove_points('k', **Q)
g.add_points(pts([(2.5, 2.5, 150., .1, .1), (3.5, 3.5, 150., .1, .1)]), 'b', **Q)
now = g.grid('mean', regrid_option='update', **Q)
held = sorted({r for t in g.tiles.flat if t for s in t.tiles.flat if s for r in s.cells})
check(now == held and g.resolutions == held, 'reported %s, held %s' % (g.resolutions, held))
''')

seed('C14-nodata-zero', 'C14',
     [(T, "        if not np.isnan(nodatavalue):  # if nodatavalue", "        if nodatavalue and not np.isnan(nodatavalue):  # if nodatavalue")],
     'a raster asked for with the no data value 0',
     'empty cells inside gridded tiles stay NaN instead of the no data value asked for',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (130.5, 1.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
d = g.get_layers_by_name('depth', nodatavalue=0.0)[0]
check(not np.isnan(d).any() and (d != 0).sum() == 2, '%s cells are NaN' % np.isnan(d).sum())
''')

seed('C15-nodata-fallback', 'C15',
     [(B, """            surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
                                                                             nodatavalue=nodatavalue)
""", """            surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True)
""")],
     'a point query with a no data value on a grid of several resolutions, at a place inside the box of the finer one where only the coarser one has a cell',
     'the empty cell of the finer resolution counts as an answer, and the no data value asked for is not used',
     '''
g = create_grid(grid_type='variable_resolution_tile', tile_size=128, subtile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (120.5, 120.5, 10., .1, .1), (70.5, 3.5, 150., .1, .1)]), 'a', **Q)
r = g.grid('mean', **Q)
v = g.layer_values_at_xy(np.array([70.5, 1.5, 50.5]), np.array([3.5, 1.5, 50.5]), nodatavalue=-99.0)
check(list(v) == [150., 10., -99.], 'resolutions %s, values %s' % (r, v))
''')

seed('C16-first-tile-x', 'C16',
     [(B, "                    curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]", "                    curgeo = [curgeo[0], curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]")],
     'a chunk whose lowest row of tiles does not begin at its leftmost column',
     'the geotransform of the chunk starts at the first tile instead of the leftmost one',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(65.5, 1.5, 10., .1, .1), (1.5, 65.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
for geo, maxdim, data in g.get_chunks_of_tiles(layer='depth', override_maximum_chunk_dimension=512, for_gdal=False):
    d = data['depth']
    got = sorted((geo[0] + (c + .5) * geo[1], geo[3] + (d.shape[0] - r - .5) * geo[5], float(d[r, c])) for r, c in np.argwhere(~np.isnan(d)))
    check(got == [(1.5, 65.5, 20.), (65.5, 1.5, 10.)], 'cells of the chunk: %s' % got)
''')

seed('C18-turned-per-layer', 'C18',
     [(B, """        if self.positive_up:
            if z_positive_up:  # this is already positive up/height, so switch this off
                z_positive_up = False
            else:  # this is a positive up/height, so switch this on to flip the z convention of the returned data
                z_positive_up = True

        tile = self.tiles""", """        tile = self.tiles"""),
      (B, """        for cnt, lyr in enumerate(layer):
            newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
""", """        for cnt, lyr in enumerate(layer):
            if self.positive_up:  # the data is positive up/height already, switch the convention that was asked for
                z_positive_up = not z_positive_up
            newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
""")],
     'positive up data and several layers asked for together with the depth not the first (third, ...) of them',
     'the convention is switched again for each layer, the depth comes back with the sign of the data',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, -10., .1, .1)]), 'a', 'f', 26917, 'COMPOUNDCRS["x",VERTCRS["y",VDATUM["z"],CS[vertical,1],AXIS["gravity-related height (H)",up],AXIS["height (h)",up]]]', progress_bar=False)
g.grid('mean', 1.0, **Q)
d = g.get_layers_by_name(['density', 'depth'])
check(np.nanmax(d[1]) == 10 == np.nanmin(d[1]), 'depth %s' % np.nanmax(d[1]))
''')

seed('C20-algorithm-before-refusal', 'C20',
     [(B, """        if clear_existing and regrid_option == 'update':
            print('Warning: regrid_option=update""", """        if clear_existing:
            self.grid_algorithm = algorithm
        if clear_existing and regrid_option == 'update':
            print('Warning: regrid_option=update""")],
     'a refused run with clear_existing and another algorithm (a resolution that is not a power of two), followed by a run with that algorithm without clearing',
     'the refused run is remembered as the algorithm of the grid, so the next run mixes the algorithms (and the proper one is refused)',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1), (65.5, 1.5, 20., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
try:
    g.grid('shoalest', 3.0, clear_existing=True, **Q)
    check(False, 'resolution 3 accepted')
except ValueError:
    pass
try:
    g.grid('mean', 1.0, **Q)
except ValueError as e:
    check(False, 'after a refused run: %s' % e)
''')

seed('C27-turned-without-copy', 'C27',
     [(T, """            data = np.copy(self.cells[resolution][layer].compute())
        except:
            data = np.copy(self.cells[resolution][layer])
""", """            data = self.cells[resolution][layer].compute()
        except:
            data = self.cells[resolution][layer]
        if not z_positive_up:  # turning the depths makes a copy already
            data = np.copy(data)
""")],
     'a layer other than the depth of a grid in memory asked for as positive up with a no data value',
     'the no data value is written into the layer of the grid',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.grid('mean', 1.0, **Q)
before = np.nanmax(g.get_layers_by_name('vertical_uncertainty')[0])
g.get_layers_by_name(['depth', 'vertical_uncertainty'], nodatavalue=5000.0, z_positive_up=True)
after = np.nanmax(g.get_layers_by_name('vertical_uncertainty')[0])
check(before == after, 'largest uncertainty before %s and after %s a query' % (before, after))
''')

seed('C28-skip-unchanged', 'C28',
     [(T, """        if clear_existing:
            self.clear_grid()
""", """        if not clear_existing and resolution in self.cells and algorithm == self.algorithm and not self.point_count_changed:
            self.grid_parameters = grid_parameters
            return resolution  # same points, same grid
        if clear_existing:
            self.clear_grid()
""")],
     'cube gridding in full mode again without clearing, after a neighbouring tile or the parameters changed',
     'a tile whose own soundings are the same is not gridded again, although its border soundings or the parameters changed',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(60.5, 1.5, 10., .1, .1)]), 'a', **Q)
par = dict(method='local', iho_order='order1a', variance_selection='cube')
g.grid('cube', 1.0, grid_parameters=par, **Q)
g.add_points(pts([(65.5, 1.5, 20., .1, .1)]), 'b', **Q)
g.grid('cube', 1.0, grid_parameters=par, **Q)
n = g.get_layers_by_name('hypothesis_count')[0][1, 60]
check(n == 2, 'the estimator was given %s soundings for the left tile, there are 2 with the border' % n)
''', pre='''
import sys, types
import numpy as np


def run_cube_gridding(depth, thu, tvu, x, y, numcols, numrows, minx, maxy, method, order, rx, ry, **kwargs):
    """counts the soundings it is given"""
    out = [np.full((numrows, numcols), np.nan) for _ in range(4)]
    for i in range(len(depth)):
        c, r = int((x[i] - minx) // rx), numrows - 1 - int((y[i] - (maxy - numrows * ry)) // ry)
        if 0 <= c < numcols and 0 <= r < numrows:
            for k, v in enumerate((depth[i], tvu[i], thu[i], len(depth))):
                out[k][r, c] = v
    return out


sys.modules['bathycube'] = types.ModuleType('bathycube')
sys.modules['bathycube.numba_cube'] = types.ModuleType('bathycube.numba_cube')
sys.modules['bathycube.numba_cube'].run_cube_gridding = run_cube_gridding
''')

seed('C29-unsorted-bins', 'C29',
     [(B, """        unique_indices, uidx, ucounts = np.unique(bin_indices[bin_sort], return_index=True, return_counts=True)
        dsm_sum""", """        unique_indices, uidx, ucounts = np.unique(bin_indices, return_index=True, return_counts=True)
        dsm_sum""")],
     'the curve of density per square metre over depth for cells that are not in order of depth',
     'the sums are taken over the wrong runs of cells, so bins show the density of other depths',
     '''
import matplotlib.pyplot as plt
g = create_grid(grid_type='single_resolution', tile_size=64)
rows = []
for k, z in enumerate([30., 10., 20.]):
    rows += [(k + .2 + .1 * i, 1.5, z, .1, .1) for i in range(k + 1)]
g.add_points(pts(rows), 'a', **Q)
g.grid('mean', 1.0, **Q)
plt.figure()
g.plot_density_per_square_meter_vs_depth(20)
y = [float(v) for v in plt.gca().lines[0].get_ydata()]
check(y == [2., 3., 1.], 'densities in order of depth are %s' % y)
''')

C = 'bathygrid/convenience.py'
U = 'bathygrid/utilities.py'

seed('C30-first-of-two-roots', 'C30',
     [(C, "    if len(valid_subfolders) > 1:", "    if len(valid_subfolders) > 2:")],
     'a folder into which grids of two types were saved',
     'a folder that holds two grids opens as one of them, whichever comes first in the listing of the folder',
     '''
f = os.path.join(scratch, 'g')
for be in ('numpy', 'zarr'):
    g = create_grid(grid_type='single_resolution', grid_backend=be, tile_size=64)
    g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
    g.save(f, **Q)
try:
    load_grid(f)
except IOError:
    return
check(False, 'a folder with two grids opens')
''')

seed('C30-file-is-no-content', 'C30',
     [(U, "        if not os.listdir(os.path.join(output_directory, fldrname)):", "        if not any(os.path.isdir(os.path.join(output_directory, fldrname, f)) for f in os.listdir(os.path.join(output_directory, fldrname))):")],
     'the folder asked for exists and holds files, but no folder',
     'a new grid moves into a folder that is taken by something else',
     '''
f = os.path.join(scratch, 'g')
os.mkdir(f)
open(os.path.join(f, 'notes.txt'), 'w').close()
g = create_grid(folder_path=f, grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
check(os.listdir(f) == ['notes.txt'], 'the folder that was taken now holds %s' % sorted(os.listdir(f)))
''')

seed('C30-old-layers-stay', 'C30',
     [(K, """                if fldr[:4] == 'cell':""", """                if tile.cells and fldr[:4] == 'cell':""", 1)],
     'a grid that was not gridded is saved (zarr) over one that was, with soundings in the same tile',
     'the layers of the grid that was there before appear in the grid that replaced it',
     '''
f = os.path.join(scratch, 'g')
for z, gridded in ((10., True), (20., False)):
    g = create_grid(grid_type='single_resolution', tile_size=64)
    g.add_points(pts([(1.5, 1.5, z, .1, .1)]), 'a', **Q)
    if gridded:
        g.grid('mean', 1.0, **Q)
    g.save(f, **Q)
t = load_grid(f).tiles.flat[0]
check(not t.cells, 'the grid that was never gridded has layers at %s m' % list(t.cells))
''')

seed('C30-saved-copy-forgotten', 'C30',
     [(K, """            self.output_folder = folderpath
            self._save_grid()""", """            self.output_folder = self.output_folder or folderpath
            home, self.output_folder = self.output_folder, folderpath
            self._save_grid()"""),
      (K, """                        subgrid.save(os.path.join(self.output_folder, self.name), progress_bar=False)

""", """                        subgrid.save(os.path.join(self.output_folder, self.name), progress_bar=False)
            self.output_folder = home

""")],
     'a grid that lives in a folder is saved to another one and edited afterwards',
     'the grid goes on in the folder it came from: what is added after saving is written there, not to the copy it now is',
     '''
a, b = os.path.join(scratch, 'a'), os.path.join(scratch, 'b')
g = create_grid(folder_path=a, grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 10., .1, .1)]), 'a', **Q)
g.save(b, **Q)
g.add_points(pts([(70.5, 1.5, 20., .1, .1)]), 'b', **Q)
n = {k: sum(t.data.size for t in load_grid(f).tiles.flat if t is not None) for k, f in (('first', a), ('second', b))}
check(n == {'first': 1, 'second': 2}, 'soundings by folder: %s' % n)
''')

seed('C31-single-tile-takes-input', 'C31',
     [(B, '''                pts = self.data[point_mask]
                if flat_tiles[ul] is None:''', '''                pts = self.data if len(unique_locs) == 1 else self.data[point_mask]  # all in one tile, no need to copy
                if flat_tiles[ul] is None:''')],
     'all soundings of an addition fall in one tile, and the caller goes on using the array',
     'the tile holds the array of the caller instead of a copy',
     '''
d = pts([(1.5, 1.5, 10., .1, .1), (3.5, 1.5, 20., .1, .1)])
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(d, 'line', **Q)
d['z'] += 100
g.grid('mean', 1.0, **Q)
z = g.get_layers_by_name('depth')[0]
check(sorted(z[~np.isnan(z)].tolist()) == [10., 20.], 'depths after the caller changed its array: %s' % z[~np.isnan(z)])
''')

seed('C12-deep-fallback', 'C12',
     [(T, '''            if nearest_valid_resolution_index == len(rez_options):  # greater than any rez option, use the coarsest resolution
                nearest_valid_resolution_index -= 1
            final_rez = depth_resolution_lookup[rez_depths[nearest_valid_resolution_index]]''', '''            if nearest_valid_resolution_index == len(rez_options):  # beyond the table
                nearest_valid_resolution_index = 0
            final_rez = depth_resolution_lookup[rez_depths[nearest_valid_resolution_index]]''')],
     'automatic resolution by density in a sparse tile that is deeper than the depth table',
     'the tile gets the finest resolution instead of the coarsest',
     '''
g = create_grid(grid_type='single_resolution', tile_size=64)
g.add_points(pts([(1.5, 1.5, 21000., .1, .1), (33.5, 41.5, 21000., .1, .1)]), 'line', **Q)
g.grid('mean', None, auto_resolution_mode='density', **Q)
check(g.resolutions == [64.0], 'resolutions: %s' % g.resolutions)
''')

