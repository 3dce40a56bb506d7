From bdacf1b9e89e98018d51d4085d0d5b0aeb3ae892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 01/50] fix: use builtin int for density nodata value (np.int
 no longer exists in numpy)

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From d4a9e28f3bb1fe05fc4e7bfe5c328d1445a877e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 02/50] fix: shoalest gridding takes the uncertainty of the
 shoalest sounding of the cell

---
 bathygrid/algorithms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..4cffd58 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -113,7 +113,7 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
     if thu.size > 0 and thu_grid.size > 0:
         thu_enabled = True
 
-    cell_sort = np.argsort(cell_indices)
+    cell_sort = np.lexsort((depth, cell_indices))  # by cell, then by depth within the cell
     unique_indices, uidx, ucounts = np.unique(cell_indices[cell_sort], return_index=True, return_counts=True)
     urow, ucol = np.unravel_index(unique_indices, grid.shape)
 
@@ -123,8 +123,7 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        depth_idx = cell_sort[uidx]  # index of the shoalest sounding of each cell
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From 9da7bb99f57d58d386676ddfacd2a00d6539a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 03/50] fix: flush tile count and mean depth to disk when
 points are added

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..ae4638f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -704,6 +704,7 @@ class BathyGrid(BaseGrid):
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
         self.data = None  # points are in the tiles, clear this attribute to free up memory
+        self._save_grid()  # mean depth and tile count are only known now, flush them too
 
     def _remove_tile(self, flat_index: int):
         """
-- 
2.43.0


From fd78cb93f421ba7fbd98fcbde475c933b3d59506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 04/50] fix: do not bring back emptied sub grids when loading a
 variable resolution grid

---
 bathygrid/backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..3cca112 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -347,6 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
+                        if newgrid.is_empty:  # all points were removed from this grid, see _remove_tile
+                            newgrid = None
                         self.tiles[row][col] = newgrid
                     else:
                         self.tiles[row][col] = None
-- 
2.43.0


From 2f344cfae1082b93933637ccb66ec0dc85a44b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 05/50] fix: update regridding only regrids the tiles that
 changed

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index ae4638f..d278edd 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1306,7 +1306,9 @@ class BathyGrid(BaseGrid):
         if progress_bar:
             print_progress_bar(0, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
         grid_border_data = border_data  # this is a vr thing, will include border data from neighboring grids as well.
+        clear_requested = clear_existing
         for cnt, tile in enumerate(self.tiles.flat):
+            clear_existing = clear_requested  # clearing a changed tile in update mode must not carry over to the next tile
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
@@ -1416,8 +1418,10 @@ class BathyGrid(BaseGrid):
         chunk_index = 0
         tile_indices = []
         grid_border_data = border_data  # this is a vr thing, will include border data from neighboring grids as well.
+        clear_requested = clear_existing
 
         for cnt, tile in enumerate(self.tiles.flat):
+            clear_existing = clear_requested  # clearing a changed tile in update mode must not carry over to the next tile
             if tile:
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
-- 
2.43.0


From 7d36f4b7f925a3c5adc48b371ea4bcfccbb3b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 06/50] fix: keep layers apart when a tile has no data for one
 of the requested layers

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d278edd..9209b1f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1226,8 +1226,8 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                for lyr in newdata.keys():
+                    data[layer.index(lyr)][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
                     empty = False
         if empty:
             data = None
-- 
2.43.0


From 8bdad36388df5560c9c365f45349cf47595cb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 07/50] fix: include the last cell boundary in return_surf_xyz,
 so the last row/column can be queried

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 9209b1f..9bf86f8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1795,8 +1795,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.arange(self.min_x, self.max_x + resolution, resolution)[new_mins[1]:new_maxs[1] + 1]
+            y = np.arange(self.min_y, self.max_y + resolution, resolution)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From 6bddb781596981b7728d6f6b98ce11e8d2655814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 08/50] fix: compare both dimensions when splitting tiles into
 chunks

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 9bf86f8..c29cd70 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1073,7 +1073,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 75769c79adc66a919f213fe8dca0754d38ffc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 09/50] fix: density nodata value must not leak into the layers
 that follow it in a chunk

---
 bathygrid/bgrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c29cd70..cb14277 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1035,16 +1035,17 @@ class BathyGrid(BaseGrid):
         minrow = min(row_indices)
         curdrow = [row - minrow for row in row_indices]
         for lyr in layers:
+            lyr_nodatavalue = nodatavalue
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                lyr_nodatavalue = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    lyr_nodatavalue = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    lyr_nodatavalue = 0
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), lyr_nodatavalue)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From e1dcd8525cd0181f1b8524562feba976b22c232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 10/50] fix: pass the backscatter setting on to the sub grids
 of a variable resolution grid

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From b432bc44e27d94613d26208e463714d70ee4fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 11/50] fix: drop the existing tile mask of the previous grid
 when a grid is started anew

---
 bathygrid/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..f20daa9 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -127,6 +127,8 @@ class BaseGrid(Grid):
             y_corner_coord = np.argwhere(tile_y_origin == self.tile_y_origin[0][0])[0][0]
             x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]
             self.existing_tile_mask[y_corner_coord:y_corner_coord + existing_tile_shape[0], x_corner_coord:x_corner_coord + existing_tile_shape[1]] = True
+        else:  # mask of an earlier grid does not apply to the new one
+            self.existing_tile_mask = None
 
         self.tile_x_origin, self.tile_y_origin = tile_x_origin, tile_y_origin
 
-- 
2.43.0


From bf3968b5b6ec7a5e2472eb0dfa5e02d7164b88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 12/50] fix: grid extents are relative to the grid origin

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index f20daa9..cd3de95 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 54d2c5d9daceff9cb35f15134d305079242b54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 13/50] fix: drop resolutions that no longer exist in any tile
 when points are removed

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index cb14277..c795e9b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -752,6 +752,9 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+                self.resolutions = []
+            else:  # drop the resolutions that only existed in removed tiles
+                self.resolutions = [rez for rez in self.resolutions if any(rez in tile.resolutions for tile in self.tiles.flat if tile)]
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 17c52b17958e469fcebfee5471b415abb1f9ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 14/50] fix: neighbor points of variable resolution grids are
 those near the border of the neighboring grid, empty sub tiles are skipped

---
 bathygrid/bgrid.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c795e9b..005029c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -966,8 +966,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
                 for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] >= (tils[0].max_y - buffer_value)]
+                        data.append(newdata)
         # right
         if tils[1]:
             if isinstance(tils[1], Tile):  # single resolution option
@@ -975,8 +976,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] <= (tils[1].min_x + buffer_value)]
+                        data.append(newdata)
         # down
         if tils[2]:
             if isinstance(tils[2], Tile):  # single resolution option
@@ -984,8 +986,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] <= (tils[2].min_y + buffer_value)]
+                        data.append(newdata)
         # left
         if tils[3]:
             if isinstance(tils[3], Tile):  # single resolution option
@@ -993,8 +996,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]
+                        data.append(newdata)
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From cfa755779b797c3edb8d2e7a6c80a64be692f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 15/50] fix: skip tiles without a grid at the requested
 resolution when building chunks

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 005029c..8ac9b79 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1177,6 +1177,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # this tile has no grid at this resolution
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
-- 
2.43.0


From 05d83ced811c548badb8002249f0647ecfeb7b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 16/50] fix: leave the coordinate system alone when the
 vertical reference of new points is refused

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 8ac9b79..dd3fc9f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -371,12 +371,12 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
             if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        if epsg:
+            self.epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
-- 
2.43.0


From 6e06fad5834186c4fc94fc4f71e86bfb250b3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 17/50] fix: refuse data without points or without z before the
 grid is changed

---
 bathygrid/bgrid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index dd3fc9f..6f5b2d9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2151,16 +2151,18 @@ class OperationalGrid(BathyGrid):
         if type(self.data) in [np.ndarray, Array]:
             if not self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy array provided for data, but no names were found, array must be a structured array')
-            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names:
-                raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names or 'z' not in self.data.dtype.names:
+                raise ValueError('BathyGrid: numpy structured array provided for data, but "x", "y" or "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
-            if 'x' not in self.data:
-                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data or 'y' not in self.data or 'z' not in self.data:
+                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x", "y" or "z" not found in variable names')
             if self.data['z'].ndim > 1:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but found multiple dimensions, must be one dimensional: {}'.format(self.data.dims))
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
         else:
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
+        if self.data.size == 0:
+            raise ValueError('BathyGrid: no points found in the provided data')
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From f693731d0e1dc835ce082a3ba50f1d728ea39fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 18/50] fix: refuse gridding an empty grid, with an unknown
 algorithm or invalid resolution before the grid is changed

---
 bathygrid/bgrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6f5b2d9..fcc5e4b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -14,7 +14,7 @@ from typing import Union
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
-    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
+    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version, is_power_of_two
 from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
@@ -1511,13 +1511,17 @@ class BathyGrid(BaseGrid):
         if clear_existing and regrid_option == 'update':
             print('Warning: regrid_option=update is ignored when using clear_existing=True.  The entire grid will be re-gridded.')
 
+        if self.is_empty:
+            raise ValueError('BathyGrid: Grid is empty, no points have been added')
+        if algorithm not in ['mean', 'shoalest', 'cube']:
+            raise ValueError("BathyGrid: algorithm must be one of ['mean', 'shoalest', 'cube'], got {}".format(algorithm))
+        if resolution is not None and not is_power_of_two(resolution):
+            raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
         if resolution is not None:
             resolution = float(resolution)
-        if self.is_empty:
-            raise ValueError('BathyGrid: Grid is empty, no points have been added')
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From 0bddf00f36426b81f2414eb722b8e7e18d03a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 19/50] fix: report the attribution of the source itself, not
 of another source with a _0 suffix

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index fcc5e4b..69ad1c5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2422,13 +2422,13 @@ class OperationalGrid(BathyGrid):
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
-            try:  # this works for kluster added containers, that have a suffix with an index
-                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                       'multibeam_lines': self.container[cont_name + '_0']}
+            try:  # this works for all standard container names
+                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
+                                                       'multibeam_lines': self.container[cont_name]}
             except KeyError:
-                try:  # this works for all other standard container names
-                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                           'multibeam_lines': self.container[cont_name]}
+                try:  # this works for kluster added containers, that have a suffix with an index
+                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
+                                                           'multibeam_lines': self.container[cont_name + '_0']}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
-- 
2.43.0


From 9ee801f19b08ea2c1943519f17317bc8b603d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/50] fix: report the dimension of chunks that consist of a
 single tile

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 69ad1c5..98aa066 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1188,9 +1188,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From cd3c880a3e8581849ede9ef0f99d50dec3b46450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 21/50] fix: clear the folder of an emptied sub grid when
 saving a variable resolution grid

---
 bathygrid/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 3cca112..6f46e0f 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -268,7 +268,7 @@ class BaseStorage(OperationalGrid):
                 for cnt, subgrid in enumerate(self.tiles.flat):
                     if progress_bar:
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
+                    subgrid_folder, row, col = self._get_tile_folder(os.path.join(self.output_folder, self.name), cnt)
                     if subgrid is None:
                         self._clear_tile(subgrid_folder)
                     else:
-- 
2.43.0


From 4b647e451f8e5f9678cf87e7c4df36d7a25d78b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 22/50] fix: density point queries go on to coarser resolutions
 where the finer one has no data

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 98aa066..64e7649 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1875,6 +1875,8 @@ class BathyGrid(BaseGrid):
                 no_values_yet = np.isnan(layer_values)
             else:
                 no_values_yet = layer_values == nodatavalue
+            if layer in ['density', 'hypothesis_count']:  # zero means that there is no data at this resolution
+                no_values_yet = no_values_yet | (layer_values == 0)
             if not no_values_yet.any():  # we have an answer for all xy locations
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
-- 
2.43.0


From 527f3f9b9753d8f12b61d32f530fa0e60654921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 23/50] fix: grids with tiles that are not gridded yet can be
 queried

---
 bathygrid/bgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 64e7649..72522e8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -104,8 +104,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile that has
+        a grid.
 
         Returns
         -------
@@ -119,13 +119,11 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
@@ -203,7 +201,8 @@ class BathyGrid(BaseGrid):
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:  # tiles that have not been gridded yet have no layers
+                        return layernames
         return []
 
     @property
@@ -848,6 +847,8 @@ class BathyGrid(BaseGrid):
         data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count
         geo = tile.get_geotransform(resolution)
         data = {}
+        if isinstance(tile, BathyGrid) and tile.no_grid:  # subgrid that has not been gridded yet
+            return tile, data, geo, data_col, data_row, tile_cell_count
         for cnt, lyr in enumerate(layer):
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
-- 
2.43.0


From ad3ab04d0f39e7e7095365fe36f720ea4f6e4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 24/50] fix: csv export gives positive up elevations whatever
 the sign of the mean depth

---
 bathygrid/bgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 72522e8..28111ae 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2281,8 +2281,7 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
-                        lyrdata[cnt] = lyrdata[cnt] * -1
+                    lyrdata[cnt] = lyrdata[cnt] * -1  # layers are returned as positive down, see get_tile_data
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
                 dnames += [lname]
-- 
2.43.0


From 8509d241eedaeb903afe53377cbe23dc9d03c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 25/50] fix: container queries do not leave container layers
 behind in the tile

---
 bathygrid/tile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..981027c 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -832,6 +832,9 @@ class SRTile(Tile):
             data = np.copy(self.cells[resolution][layer].compute())
         except:
             data = np.copy(self.cells[resolution][layer])
+        if container_query:  # only used for this query, should not turn up as a layer of the tile
+            self.cells[resolution].pop(layer)
+            self.cells[resolution].pop(layer + '_density', None)
         if np.count_nonzero(np.isnan(data)) == data.size:
             return None
         if layer.lower() == 'depth' and z_positive_up:
-- 
2.43.0


From a3a8b287a98e352411e772668d1a79287260b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 26/50] fix: trimmed layers are trimmed for density and numeric
 nodata values too

---
 bathygrid/bgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 28111ae..c7720bd 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1274,7 +1274,10 @@ class BathyGrid(BaseGrid):
         data = self.get_layers_by_name(layer, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
         dat = data[0]  # just use the first layer, the mins/maxs should be the same for all layers
 
-        notnan = ~np.isnan(dat)
+        if np.issubdtype(dat.dtype, np.integer):  # density, hypothesis count, cells without data are zero or the nodatavalue
+            notnan = dat != 0 if np.isnan(nodatavalue) else (dat != 0) & (dat != int(nodatavalue))
+        else:
+            notnan = ~np.isnan(dat) & (dat != np.float32(nodatavalue))
         rows = np.any(notnan, axis=1)
         cols = np.any(notnan, axis=0)
         rmin, rmax = np.where(rows)[0][[0, -1]]
-- 
2.43.0


From 7a8bd7b51195f6631559abca3708d4e45210a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 27/50] fix: chunk iteration uses the only resolution when none
 is given

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c7720bd..80b25c2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1164,6 +1164,10 @@ class BathyGrid(BaseGrid):
 
         if isinstance(layer, str):
             layer = [layer]
+        if not resolution:
+            if len(self.resolutions) > 1:
+                raise ValueError('BathyGrid: you must specify a resolution to return layer data when multiple resolutions are found')
+            resolution = self.resolutions[0]
         if override_maximum_chunk_dimension:
             max_dimension = override_maximum_chunk_dimension
         else:
-- 
2.43.0


From c1dbe072df33390e58454840b3e18266607d28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 28/50] fix: refuse point sets with other variables than the
 grid holds before changing anything

---
 bathygrid/bgrid.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 80b25c2..e7dedc5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2177,6 +2177,26 @@ class OperationalGrid(BathyGrid):
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
         if self.data.size == 0:
             raise ValueError('BathyGrid: no points found in the provided data')
+        existing_names = self._point_variable_names()
+        if existing_names and self.data.dtype.names != existing_names:
+            if set(self.data.dtype.names) != set(existing_names):
+                raise ValueError('BathyGrid: the provided data has variables {}, which do not match the variables in the grid {}'.format(self.data.dtype.names, existing_names))
+            reordered = np.empty(self.data.shape, dtype=[(nm, self.data.dtype[nm]) for nm in existing_names])
+            for nm in existing_names:
+                reordered[nm] = self.data[nm]
+            self.data = reordered
+
+    def _point_variable_names(self):
+        """
+        The variable names of the point data already in the grid, None if there are no points yet
+        """
+
+        if not self.is_empty:
+            for tile in self.tiles.flat:
+                for leaf in (tile.tiles.flat if isinstance(tile, BathyGrid) and not tile.is_empty else [tile]):
+                    if leaf is not None and leaf.data is not None and leaf.data.dtype.names:
+                        return leaf.data.dtype.names
+        return None
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From 56a48e299b69d2e4f6e59ec531e1df48dee6daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 29/50] fix: choose an automatic resolution when the mean depth
 is zero

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e7dedc5..7fca427 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -420,8 +420,8 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
-            raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
+        if self.is_empty:  # a mean depth of zero is a valid depth
+            raise ValueError('Bathygrid: Unable to calculate resolution when there are no points in the grid')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
         range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
-- 
2.43.0


From b9b9eb64ecbc5a669b2c8c633ab4eb5a0819896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 30/50] fix: geotransforms keep the coordinates of the grid
 corner in double precision

single precision moves a northing of 4.5 million meters by up to 0.25 m when the corner is no whole number
---
 bathygrid/bgrid.py | 2 +-
 bathygrid/grids.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7fca427..074b198 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -337,7 +337,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index cd3de95..010340d 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -309,6 +309,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From 35ee301942c51604a41f5d9e76c3a52c3361af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 31/50] fix: every parallel gridding run hands its tiles to the
 cluster anew

with hashed keys, gridding unchanged tiles again meets the tasks of the last run while the cluster releases them
and fails now and then with a FuturesCancelledError (lost dependencies)
---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 074b198..a053a06 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1372,7 +1372,7 @@ class BathyGrid(BaseGrid):
 
     def _grid_parallel_worker(self, data_for_workers: list, progress_bar: bool, tile_indices: list):
         futs = []
-        data_for_workers = self.client.scatter(data_for_workers)
+        data_for_workers = self.client.scatter(data_for_workers, hash=False)
         futs.append(self.client.map(_gridding_parallel, data_for_workers))
         if progress_bar:
             progress(futs, multi=False)
-- 
2.43.0


From 29cf39599e28b89cf7a00d87b2f5b1bfb155e152 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 32/50] fix: parallel gridding takes the same border soundings
 for cube as sequential gridding

---
 bathygrid/bgrid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a053a06..bdbd9f5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1455,10 +1455,7 @@ class BathyGrid(BaseGrid):
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
                 if algorithm == 'cube':
-                    if auto_resolution:
-                        border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
-                    else:
-                        border_data = self.get_tile_neighbor_points(tile, min(tile.width / 10, resolution * 3))
+                    border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
                         if border_data is not None:
                             border_data = np.concatenate([border_data, grid_border_data])
-- 
2.43.0


From b75652fe60b6b47cd1f0dff1a503b45a67d6a06d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 33/50] fix: layers of a single source can be asked for in a
 grid made with cube

---
 bathygrid/tile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 981027c..6144a83 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -406,13 +406,13 @@ class SRTile(Tile):
             totalunc_grid = self.cells[resolution]['total_uncertainty']
             hypcnt_grid = self.cells[resolution]['hypothesis_count']
             hypratio_grid = self.cells[resolution]['hypothesis_ratio']
-        else:
-            totalunc_grid = np.array([])
-            hypcnt_grid = np.array([])
-            hypratio_grid = np.array([])
+        else:  # these are not returned by the container query, but the algorithm fills them
+            totalunc_grid = np.full(self.cells[resolution][self.depth_key].shape, np.nan, dtype=np.float32)
+            hypcnt_grid = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
+            hypratio_grid = np.full(self.cells[resolution][self.depth_key].shape, np.nan, dtype=np.float32)
 
         if only_container:
-            depth_val = data['z'][self.container[only_container][0]:self.container[only_container][1]]
+            depth_val = data['z']
             self.cells[resolution][only_container] = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container + '_density'] = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
         else:
@@ -465,6 +465,8 @@ class SRTile(Tile):
     def _run_cube_grid(self, resolution: float, grid_parameters: dict = float, only_container: str = None, border_data: np.ndarray = None):
         if border_data is not None:
             data = np.concatenate([self.data, border_data])
+        elif only_container:
+            data = self.data[self.container[only_container][0]:self.container[only_container][1]]
         else:
             data = self.data
         vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx = self._cube_grid_algorithm_initialize(data, resolution, only_container=only_container)
-- 
2.43.0


From 35cae88590f364174fafab3613d797c4e0f8636b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 34/50] fix: a tile remembers the parameters it was last
 gridded with

---
 bathygrid/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 6144a83..9487830 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -728,9 +728,9 @@ class SRTile(Tile):
             self.clear_grid()
         self._clear_temp_data(resolution)
 
+        self.grid_parameters = grid_parameters
         if resolution not in self.cells or algorithm != self.algorithm:
             self.algorithm = algorithm
-            self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             self.cell_edges_x[resolution] = self.cell_edges_x[resolution].compute()
-- 
2.43.0


From 610df05169b9c492afd7438d10db74a85726e3db Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 35/50] fix: an unknown auto_resolution_mode is refused before
 anything is changed

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index bdbd9f5..56c30de 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1522,6 +1522,8 @@ class BathyGrid(BaseGrid):
             raise ValueError("BathyGrid: algorithm must be one of ['mean', 'shoalest', 'cube'], got {}".format(algorithm))
         if resolution is not None and not is_power_of_two(resolution):
             raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
+        if resolution is None and auto_resolution_mode.lower() not in ['depth', 'density']:
+            raise ValueError("BathyGrid: auto_resolution_mode must be one of ['depth', 'density'], got {}".format(auto_resolution_mode))
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
-- 
2.43.0


From 0f665e62bbaf3c79077dad9188de795eea9dc556 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 36/50] fix: cube is refused before anything is changed when
 the points have no uncertainty

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 56c30de..b1abb85 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1520,6 +1520,8 @@ class BathyGrid(BaseGrid):
             raise ValueError('BathyGrid: Grid is empty, no points have been added')
         if algorithm not in ['mean', 'shoalest', 'cube']:
             raise ValueError("BathyGrid: algorithm must be one of ['mean', 'shoalest', 'cube'], got {}".format(algorithm))
+        if algorithm == 'cube' and not (self.has_vertical_uncertainty and self.has_horizontal_uncertainty):
+            raise ValueError('BathyGrid: cube requires points with both vertical (tvu) and horizontal (thu) uncertainty')
         if resolution is not None and not is_power_of_two(resolution):
             raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
         if resolution is None and auto_resolution_mode.lower() not in ['depth', 'density']:
-- 
2.43.0


From 2bd6c1ca8bfc2bf050b55e016bd156982d9f9a33 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 37/50] fix: cube is refused before anything is changed when
 bathycube is not installed

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b1abb85..18672b7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -11,6 +11,7 @@ import h5py
 from pyproj import CRS
 from typing import Union
 
+from bathygrid.algorithms import cube_enabled
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
@@ -1520,6 +1521,8 @@ class BathyGrid(BaseGrid):
             raise ValueError('BathyGrid: Grid is empty, no points have been added')
         if algorithm not in ['mean', 'shoalest', 'cube']:
             raise ValueError("BathyGrid: algorithm must be one of ['mean', 'shoalest', 'cube'], got {}".format(algorithm))
+        if algorithm == 'cube' and not cube_enabled:
+            raise EnvironmentError('BathyGrid: bathycube module not found, unable to grid with cube')
         if algorithm == 'cube' and not (self.has_vertical_uncertainty and self.has_horizontal_uncertainty):
             raise ValueError('BathyGrid: cube requires points with both vertical (tvu) and horizontal (thu) uncertainty')
         if resolution is not None and not is_power_of_two(resolution):
-- 
2.43.0


From b0e45008992bdb1d0d7e95419f6bc7fe0deae2a8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 38/50] fix: layers are trimmed to the box of all the layers
 asked for, not of the first one

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 18672b7..6e8e6f7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1277,12 +1277,12 @@ class BathyGrid(BaseGrid):
         """
 
         data = self.get_layers_by_name(layer, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
-        dat = data[0]  # just use the first layer, the mins/maxs should be the same for all layers
-
-        if np.issubdtype(dat.dtype, np.integer):  # density, hypothesis count, cells without data are zero or the nodatavalue
-            notnan = dat != 0 if np.isnan(nodatavalue) else (dat != 0) & (dat != int(nodatavalue))
-        else:
-            notnan = ~np.isnan(dat) & (dat != np.float32(nodatavalue))
+        notnan = np.zeros(data[0].shape, dtype=bool)
+        for dat in data:  # cells can have a density but no estimate with cube, so look at all of the layers
+            if np.issubdtype(dat.dtype, np.integer):  # density, hypothesis count, cells without data are zero or the nodatavalue
+                notnan |= dat != 0 if np.isnan(nodatavalue) else (dat != 0) & (dat != int(nodatavalue))
+            else:
+                notnan |= ~np.isnan(dat) & (dat != np.float32(nodatavalue))
         rows = np.any(notnan, axis=1)
         cols = np.any(notnan, axis=0)
         rmin, rmax = np.where(rows)[0][[0, -1]]
-- 
2.43.0


From cd268029e181b2d3ce7f58447d789f3e45e05531 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 39/50] fix: slopes are fitted with offsets inside the cell,
 large coordinates lost the plane

---
 bathygrid/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index 4cffd58..4f990b6 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -267,7 +267,8 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
         # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # use offsets from the first point, the fit is not accurate with large (projected) coordinates
+        a_data = np.column_stack([x_cell - x_cell[0], y_cell - y_cell[0], np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -276,7 +277,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - x_cell[0]) + fit[1] * (lstsq_y[row, col] - y_cell[0]) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From b416ee27795ffea03bcdb28a38a4b458985cce56 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 40/50] fix: the vertical CRS of a BAG is turned positive up,
 the replaced string was dropped

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6e8e6f7..6bae34e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2399,8 +2399,8 @@ class OperationalGrid(BathyGrid):
             process_step_description = 'Generated By GDAL {}'.format(return_gdal_version())
         if not vert_crs:
             vert_crs = 'VERT_CS["unknown", VERT_DATUM["unknown", 2000]]'
-        vert_crs.replace('"depth (D)",down', '"gravity-related height (H),up')  # WKT2
-        vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
+        vert_crs = vert_crs.replace('"depth (D)",down', '"gravity-related height (H)",up')  # WKT2
+        vert_crs = vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
 
         bag_options = ['VAR_INDIVIDUAL_NAME=' + individual_name, 'VAR_ORGANISATION_NAME=' + organizational_name,
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
-- 
2.43.0


From 534999ec23d99218568f132ae5f09ff04367cdb8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 41/50] fix: other_constraints reaches the BAG metadata, the
 variable of the template has another name

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6bae34e..aa5d6dc 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2406,7 +2406,7 @@ class OperationalGrid(BathyGrid):
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
                        'VAR_ABSTRACT=' + abstract, 'VAR_PROCESS_STEP_DESCRIPTION=' + process_step_description,
                        'VAR_DATETIME=' + attr_datetime, 'VAR_RESTRICTION_CODE=' + restriction_code,
-                       'VAR_OTHER_CONSTRAINTS=' + other_constraints, 'VAR_CLASSIFICATION=' + classification,
+                       'VAR_RESTRICTION_OTHER_CONSTRAINTS=' + other_constraints, 'VAR_CLASSIFICATION=' + classification,
                        'VAR_SECURITY_USER_NOTE=' + security_user_note]
 
         lyrtranslator = {'depth': 'Depth', 'density': 'Density', 'elevation': 'Elevation', 'vertical_uncertainty': 'Uncertainty',
-- 
2.43.0


From 644673d7ba122ec83ffa377e55716fbc993d44fa Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 42/50] fix: point queries take y locations as a tuple too,
 like x locations

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index aa5d6dc..21e75d0 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1833,7 +1833,7 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-- 
2.43.0


From 4e97aa0c6e9f7b462ce0230e6a8c0aeeed7d1a43 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 43/50] fix: point queries recognize empty cells when the no
 data value is not a single precision number

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 21e75d0..79e3bf8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1881,6 +1881,8 @@ class BathyGrid(BaseGrid):
             1d array of the same size as x_loc/y_loc with the layer values at the locations
         """
 
+        if not np.isnan(nodatavalue):  # use the no data value as it comes back in the layer (integer or single precision)
+            nodatavalue = np.float32(int(nodatavalue) if layer in ['density', 'hypothesis_count'] else nodatavalue)
         asarrays, query_resolution, layer_values, x_loc, y_loc = self._validate_layer_query(x_loc, y_loc, layer, resolution, nodatavalue)
         for rez in query_resolution:
             if np.isnan(nodatavalue):
-- 
2.43.0


From 404308f4fccd03780ac5d74c3252f68ad9f36482 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 44/50] fix: a grid saved over another one replaces it, tiles
 of the old one came back when the new one grew

---
 bathygrid/backends.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 6f46e0f..fcf2e54 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -205,6 +205,19 @@ class BaseStorage(OperationalGrid):
         self._clear_tile(tile_folder)
         os.makedirs(tile_folder)
 
+    def _clear_leftover_tiles(self):
+        """
+        Saving to a folder that already holds a grid replaces that grid.  Clear the tiles on disk that are not a part of
+        this grid, otherwise they would become a part of it as soon as it grows to include them.
+        """
+
+        root_folder = os.path.join(self.output_folder, self.name)
+        tile_names = [] if self.is_empty else [self._get_new_tile_name(cnt) for cnt, tile in enumerate(self.tiles.flat) if tile is not None]
+        for fldr in os.listdir(root_folder):
+            tile_folder = os.path.join(root_folder, fldr)
+            if fldr not in tile_names and os.path.exists(os.path.join(tile_folder, 'metadata.json')):
+                self._clear_tile(tile_folder)
+
     def _save_grid(self):
         """
         Save the grid data to disk, grids do not contain points or gridded data (that is in the tiles) so the only
@@ -257,6 +270,7 @@ class BaseStorage(OperationalGrid):
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
+            self._clear_leftover_tiles()
             if progress_bar:
                 print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
             if self.sub_type in ['srtile', 'quadtile']:
-- 
2.43.0


From ffb937eded02aa4e33b7302a5a2755f4f57c4f4e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 45/50] fix: a grid without soundings can be saved

---
 bathygrid/backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index fcf2e54..fd32212 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -271,6 +271,8 @@ class BaseStorage(OperationalGrid):
             self.output_folder = folderpath
             self._save_grid()
             self._clear_leftover_tiles()
+            if self.is_empty:
+                return
             if progress_bar:
                 print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
             if self.sub_type in ['srtile', 'quadtile']:
-- 
2.43.0


From 40f5bce51505f3d29955795c8b25fd1fcf3dccec Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 46/50] fix: a folder that is taken gets a fresh one next to it
 also twice within a second

---
 bathygrid/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..d799ba6 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -96,6 +96,10 @@ def create_folder(output_directory: str, fldrname: str):
             fldr_path = os.path.join(output_directory, fldrname)
         else:
             fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+            tag = 1
+            while os.path.exists(fldr_path):  # there is one from the same second
+                fldr_path = os.path.join(output_directory, fldrname + '_{}_{}'.format(tstmp, tag))
+                tag += 1
             os.mkdir(fldr_path)
     return fldr_path
 
-- 
2.43.0


From 98b839606328c543db1953f36f4938b6d14ebae7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 47/50] fix: create_grid takes the name of a folder in the
 current directory, and one that ends in a separator

---
 bathygrid/convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/convenience.py b/bathygrid/convenience.py
index aba8525..6916d17 100644
--- a/bathygrid/convenience.py
+++ b/bathygrid/convenience.py
@@ -37,7 +37,7 @@ def _validate_load_path(folder_path: str):
 
 def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str, tile_size: float, subtile_size: float):
     if folder_path:
-        fpath, fname = os.path.split(folder_path)
+        fpath, fname = os.path.split(os.path.abspath(folder_path))
         folderpath = create_folder(fpath, fname)
     else:
         folderpath = ''
-- 
2.43.0


From 5a183c5d013ef0004ea8bbafacc004e49d5cf6aa Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 48/50] fix: a refused create_grid leaves no folder behind

---
 bathygrid/convenience.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/convenience.py b/bathygrid/convenience.py
index 6916d17..fc141c5 100644
--- a/bathygrid/convenience.py
+++ b/bathygrid/convenience.py
@@ -36,12 +36,6 @@ def _validate_load_path(folder_path: str):
 
 
 def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str, tile_size: float, subtile_size: float):
-    if folder_path:
-        fpath, fname = os.path.split(os.path.abspath(folder_path))
-        folderpath = create_folder(fpath, fname)
-    else:
-        folderpath = ''
-
     if grid_type not in ['single_resolution', 'variable_resolution_tile']:
         raise ValueError("Grid type {} invalid, must be one of ['single_resolution', 'variable_resolution_tile']".format(grid_type))
     if grid_backend not in ['numpy', 'zarr']:
@@ -50,6 +44,12 @@ def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str
         raise ValueError('Tile size {} must be a power of two'.format(tile_size))
     if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):
         raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))
+
+    if folder_path:
+        fpath, fname = os.path.split(os.path.abspath(folder_path))
+        folderpath = create_folder(fpath, fname)
+    else:
+        folderpath = ''
     return folderpath
 
 
-- 
2.43.0


From 721f9f28a06167721258f500061becc692b422e2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 49/50] fix: file lists, parameters and resolutions handed in
 or out belong to the caller, the grid keeps its own

---
 bathygrid/bgrid.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 79e3bf8..2f4ff78 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -393,7 +393,7 @@ class BathyGrid(BaseGrid):
                 self.max_time = utc_seconds_to_formatted_string(max_time)
 
         if file_list:
-            self.container[container_name] = file_list
+            self.container[container_name] = list(file_list)  # the list of the caller is not ours
         else:
             self.container[container_name] = ['Unknown']
         self.container_timestamp[container_name] = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
@@ -1531,7 +1531,7 @@ class BathyGrid(BaseGrid):
             raise ValueError("BathyGrid: auto_resolution_mode must be one of ['depth', 'density'], got {}".format(auto_resolution_mode))
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
-        self.grid_parameters = grid_parameters
+        self.grid_parameters = dict(grid_parameters) if grid_parameters else grid_parameters
         if resolution is not None:
             resolution = float(resolution)
         auto_resolution = ''
@@ -1549,7 +1549,7 @@ class BathyGrid(BaseGrid):
             self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
         else:
             self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
-        return self.resolutions
+        return list(self.resolutions)
 
     def plot(self, layer: str = 'depth', resolution: float = None):
         """
@@ -2448,27 +2448,28 @@ class OperationalGrid(BathyGrid):
         """
 
         data = {'grid_folder': self.output_folder, 'name': self.name, 'type': type(self), 'grid_resolution': self.grid_resolution,
-                'grid_algorithm': self.grid_algorithm, 'grid_parameters': self.grid_parameters, 'epsg': self.epsg,
+                'grid_algorithm': self.grid_algorithm,
+                'grid_parameters': dict(self.grid_parameters) if self.grid_parameters else self.grid_parameters, 'epsg': self.epsg,
                 'vertical_reference': self.vertical_reference,
                 'height': self.height, 'width': self.width, 'minimum_x': self.min_x, 'maximum_x': self.max_x,
                 'minimum_y': self.min_y, 'maximum_y': self.max_y, 'minimum_time_utc': self.min_time,
                 'maximum_time_utc': self.max_time, 'tile_size': self.tile_size,
-                'subtile_size': self.subtile_size, 'tile_count': self.number_of_tiles, 'resolutions': self.resolutions,
+                'subtile_size': self.subtile_size, 'tile_count': self.number_of_tiles, 'resolutions': list(self.resolutions),
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
             try:  # this works for all standard container names
                 data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                       'multibeam_lines': self.container[cont_name]}
+                                                       'multibeam_lines': list(self.container[cont_name])}
             except KeyError:
                 try:  # this works for kluster added containers, that have a suffix with an index
                     data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                           'multibeam_lines': self.container[cont_name + '_0']}
+                                                           'multibeam_lines': list(self.container[cont_name + '_0'])}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
                         data['source_{}'.format(nearest_cont_name[0])] = {'time': self.container_timestamp[nearest_cont_name[0]],
-                                                                          'multibeam_lines': self.container[nearest_cont_name[0]]}
+                                                                          'multibeam_lines': list(self.container[nearest_cont_name[0]])}
                     else:
                         raise ValueError('Unable to find entry for container {}, if you have a suffix with a _ and a number, bathygrid will interpret that as an index starting with 0'.format(cont_name))
         return data
-- 
2.43.0


From 1f0f86de06b28ba7db91e0905b9eaf66e122de2c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 50/50] fix: depths beyond the lookup table get the coarsest
 resolution, not the finest

---
 bathygrid/bgrid.py | 2 +-
 bathygrid/tile.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2f4ff78..eeea793 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -425,7 +425,7 @@ class BathyGrid(BaseGrid):
             raise ValueError('Bathygrid: Unable to calculate resolution when there are no points in the grid')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        range_index = min(int(np.searchsorted(dpth_keys, self.mean_depth, side='right')), len(dpth_keys) - 1)  # deeper than all of them, use the coarsest
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.tile_size, calc_resolution)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 9487830..cd97cac 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -248,7 +248,7 @@ class SRTile(Tile):
             raise ValueError('SRTile: Unable to calculate resolution when there are no points in the tile')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        range_index = min(int(np.searchsorted(dpth_keys, self.mean_depth, side='right')), len(dpth_keys) - 1)  # deeper than all of them, use the coarsest
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.width, calc_resolution)
-- 
2.43.0

