import json
B='bathygrid/'
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["return of the public call"],hook_needed=None))
L=[]
L.append(P("C01","Soundings are conserved and stay attributed to the source they came from",
"After any sequence of adding and removing named point sets, the grid holds exactly the soundings of the point sets currently present: every one kept with its x, y, z (and uncertainties) unchanged, none duplicated, lost or invented. Each sounding stays attributed to the name it was added under, and the reported point count and list of sources agree with this.",
["histories","inputs"],"all histories of add_points/remove_points (and interleaved gridding/reloading), all point sets, SR and VR grids, every input type accepted (structured array, dask array, xarray)",
"Tests add one or a few fixed meshes and check totals; they never check the multiset of points per source after longer histories with shared tiles.",
["bgrid.py","tile.py","grids.py"],[("split of incoming points over tiles","bgrid.py add_points/_add_points_to_tiles"),("per source ranges into the tile data","tile.py SRTile.add_points/remove_points")],
[dict(name="tile.data / tile.container",meaning="points of a tile, and [start,end) of each source",where="tile.py")]))
L.append(P("C02","Every sounding lies in the one tile covering it; the extents cover all soundings",
"Each sounding is stored in the tile whose half-open square [min, min+size) contains it; tiles sit on the lattice defined by the grid origin and tile size (and sub tile size in a variable resolution grid), and each tile sits where the grid's extents say it is. The extents always enclose everything added (strictly at the upper side), never shrink because of an addition, and growing in any direction moves no existing data.",
["inputs","histories"],"all coordinates including negative ones and ones exactly on tile borders, non-zero grid origins, growth in all eight directions in any order",
"Tests use a handful of positive meshes with one or two growth steps.",
["grids.py","bgrid.py","utilities.py","maingrid.py"],[("extent rounding","grids.py _adjust_extents"),("relocation of existing tiles","grids.py _build_grid / bgrid.py _update_tiles"),("binning","utilities.py bin2d_with_indices")]))
L.append(P("C03","Removing a named point set removes exactly that set",
"Removing a name takes away all the soundings added under it and nothing else, whatever was added before or after it, and whatever was gridded or reloaded in between; tiles left without soundings disappear from the grid and the rest stay. Removing an unknown name changes nothing, and the same name can be added again afterwards.",
["histories","inputs"],"all orders of adds/removes of up to several interleaved sources sharing tiles, with gridding and reloads between",
"Tests remove one source of one or two from a fresh grid.",
["tile.py","bgrid.py"],[("range shift on removal","tile.py SRTile.remove_points"),("emptied tiles dropped","bgrid.py remove_points/_remove_tile")]))
L.append(P("C04","Mean gridding reports each cell's arithmetic mean and sounding count",
"With the mean algorithm, each cell's depth, vertical and horizontal uncertainty equal the arithmetic mean (to the millimetre) of the values of exactly the soundings whose coordinates fall in that half-open cell, and its density is their number. Cells without soundings hold no data and density zero.",
["inputs","histories"],"all point sets, all power-of-two resolutions up to the tile size, points on cell borders, unsorted input, with or without uncertainties",
"Tests compare a few cells of one regular mesh (and the direct algorithm tests use sorted values).",
["algorithms.py","tile.py","utilities.py"],[("np_grid_mean","algorithms.py"),("cell binning","tile.py SRTile.grid, utilities.py bin2d_with_indices")]))
L.append(P("C05","Shoalest gridding reports the least depth and that sounding's own uncertainty",
"With the shoalest algorithm each cell's depth is the minimum depth of the soundings in that cell, its density is their number, and its vertical and horizontal uncertainty are those of a sounding in that same cell that attains the minimum. Cells without soundings hold no data.",
["inputs","histories"],"all point sets (unsorted, tied depths across and within cells), all resolutions, with or without uncertainties",
"Tests use data in which depth, tvu and thu rise together in storage order, so any wrong pick looks right.",
["algorithms.py","tile.py"],[("np_grid_shoalest","algorithms.py"),("_run_shoalest_grid","tile.py")]))
L.append(P("C06","Regridding after any history equals gridding the same soundings from scratch",
"After any history of additions, removals, gridding at other resolutions or algorithms, and reloads, gridding again gives in every regridded tile the same layers as a new grid that was given only the soundings now present.",
["histories"],"all histories of add, remove, grid(resolution, algorithm, clear or not, full or update), reload",
"Tests regrid at most once or twice after one change; the cell index bookkeeping has history-dependent states (unknown indices, several resolutions) that tests do not reach.",
["tile.py","bgrid.py","backends.py"],[("cached cell indices with -1 for new points","tile.py cell_indices in add_points/remove_points/grid"),("layer reset before regrid","tile.py SRTile.grid")]))
L.append(P("C07","Update regridding touches exactly the changed tiles and loses nothing",
"Gridding with the update option regrids exactly the tiles whose soundings changed since they were last gridded: those end with only the layers of the new run, and every other tile keeps its previous layers bit for bit. If the settings are unchanged, the result equals a full regrid.",
["histories","configurations"],"all edit histories between update runs, SR and VR, explicit and automatic resolution, sequential and dask",
"Tests run one update on one fixed change and look at one or two tiles.",
["bgrid.py","tile.py"],[("skip of unchanged tiles","bgrid.py _grid_regular/_grid_parallel"),("point_count_changed","tile.py")]))
L.append(P("C08","The pending-change flag is set exactly when regridding is due",
"A tile reports pending changes exactly when its soundings have been added to or removed from since it was last gridded, and the grid reports pending changes exactly when some tile does. The flag survives saving and reloading.",
["histories"],"all histories of add, remove, grid, reload",
"Tests look at the flag after one add/grid/remove sequence.",
["tile.py","bgrid.py","backends.py"],[("point_count_changed","tile.py SRTile, bgrid.py BathyGrid.point_count_changed, grid_variables.py tile_desired_keys")]))
L.append(P("C09","An on-disk grid reopens after any operation with nothing lost or resurrected",
"For a grid bound to a folder, after every completed operation, loading the folder yields a grid with the same soundings, sources, layers, resolutions, extents, pending flags and metadata as the live object. Continuing on the reopened grid behaves as continuing on the live one, and tiles and sources that were removed do not come back.",
["crash_points","histories","configurations"],"process exit after any completed operation in any history; numpy and zarr storage; SR and VR",
"Tests reload after add or after grid only, and never continue the history on the reloaded grid.",
["backends.py","bgrid.py","convenience.py","grid_variables.py"],[("flush in add/remove/grid","bgrid.py _save_grid/_save_tile calls"),("load_grid","convenience.py, backends.py BaseStorage.load")]))
L.append(P("C10","Storage choice does not change results (memory, numpy, zarr, save, load)",
"The same sequence of operations gives the same soundings, layers and query results whether the grid lives in memory or on disk and whichever storage backend is used. Saving an in-memory grid to a folder and loading it gives back the same grid, of the same type.",
["configurations","histories"],"all histories, four grid classes, memory/folder/saved-later",
"Tests repeat a few fixed scenarios for each class and check a few numbers.",
["backends.py","maingrid.py","convenience.py"],[("NumpyGrid/ZarrGrid array and metadata round trip","backends.py"),("BaseStorage.save/load","backends.py")]))
L.append(P("C11","Parallel gridding gives the same result as sequential gridding",
"Gridding through dask workers gives the same layers, resolutions, pending flags and stored files as gridding the same grid in sequence, for any number of tiles and workers and any completion order.",
["schedules","configurations","histories"],"any number of tiles relative to worker batches, SR/VR, full/update, in memory and on disk",
"Tests have one dask run whose result is compared for one layer of one grid.",
["bgrid.py"],[("batches of tiles sent to workers and put back by index","bgrid.py _grid_parallel/_grid_parallel_worker")]))
L.append(P("C12","Automatic resolution follows the depth table or the density estimate",
"With depth mode, the resolution used is the one the depth table gives for the mean depth (of the grid's recorded mean depth in a single resolution grid, of each sub tile's own soundings in a variable resolution grid), never coarser than the tile. With density mode it is the documented density estimate rounded up to a table resolution, falling back to the depth table for tiles that are mostly empty; a single resolution grid uses the coarsest tile estimate.",
["inputs","histories"],"all depth distributions and densities, all tile sizes",
"Tests check a few constant depths and one density set.",
["bgrid.py","tile.py","grid_variables.py"],[("_calculate_resolution_lookup","bgrid.py, tile.py"),("resolution_by_density","bgrid.py, tile.py")]))
L.append(P("C13","The reported resolutions are those the grid really holds",
"The resolution list reported by the grid, and returned by gridding, is sorted, names only resolutions at which some tile holds a gridded result, and includes every resolution produced by the latest gridding that still has data. It stays true after removals, updates and reloads.",
["histories"],"all histories of add, remove, grid, reload",
"Tests check the list right after one gridding.",
["bgrid.py"],[("self.resolutions","bgrid.py grid/_grid_regular/remove_points")]))
L.append(P("C14","A layer raster has every gridded value at its place, no data elsewhere",
"A layer requested for the whole grid at a resolution has the shape of the grid extents, each gridded cell of that resolution at the row and column of its position, and no data (the requested value) everywhere else; several layers requested together come back in the order requested. The trimmed form is the smallest box containing all data with matching coordinates. On a grid that was not gridded, or that holds several resolutions when none is named, the request is refused.",
["inputs","histories","configurations"],"all grids with holes, mixed resolutions, layers present in only some tiles, no-data values, pending edits",
"Tests sample a few cells of fully populated grids.",
["bgrid.py","tile.py"],[("get_layers_by_name/get_layers_trimmed/return_surf_xyz/get_tile_data","bgrid.py"),("SRTile.get_layers_by_name","tile.py")]))
L.append(P("C15","Point queries return the finest populated cell at the location",
"Asking for a layer value at any x, y returns the value of the cell that contains the location at the finest of the grid's reported resolutions that has data there, or at the requested resolution if one is given, and the no-data value where there is none or outside the grid. Scalars, lists, tuples and arrays give the same answers; x and y of different lengths are refused.",
["inputs","histories"],"all locations including cell and tile borders, outside points, multi-resolution grids, any no-data value",
"Tests query a few points of one grid.",
["bgrid.py"],[("layer_values_at_xy","bgrid.py")]))
L.append(P("C16","Chunk and tile iteration cover the grid exactly once, correctly georeferenced",
"Iterating the grid in chunks of at most a given dimension returns every gridded cell of that resolution exactly once, at the position its geotransform says, with no data elsewhere, and no chunk is larger than the limit unless a single tile is. Iterating tile by tile does the same per tile. When the grid holds several resolutions and none is named the request is refused.",
["inputs","configurations"],"all tile layouts (holes, thin, single tile), chunk limits, multi-resolution grids, several layers of different types together",
"Tests check chunk counts and corners for one layout.",
["bgrid.py"],[("get_chunks_of_tiles/_tile_chunk_indices/_split_to_approx_shape/_finalize_chunk/get_tiles_by_resolution","bgrid.py")]))
L.append(P("C17","Exports contain exactly the gridded cells at their true positions and values",
"CSV, GeoTIFF and BAG exports (the raster formats of a grid with a coordinate system) contain, for each resolution, every gridded cell once with its position, value and uncertainty, and nothing where there is no data; the coordinate system, band names, the resolution and number in each raster file's name, and the BAG's recorded minimum/maximum, times, metadata options (the given ones or their documented values, the vertical axis turned positive up) and registration file match the grid. A file that already has the name asked for is left alone, and an unknown format is refused without writing anything.",
["inputs","configurations","histories"],"all grids, resolutions, chunk limits, formats",
"Tests check that files exist with a few values; CSV tests cannot run in this environment.",
["bgrid.py","utilities.py"],[("_export_csv/_export_geotiff/_export_bag","bgrid.py"),("gdal_raster_create","utilities.py")]))
L.append(P("C18","The sign convention of returned and exported depths is consistent",
"Whichever vertical convention the data was declared with, layers come back positive down by default and positive up when asked; exports come out positive up by default, and only the depth layer is affected.",
["inputs","configurations"],"vertical references up/down, depths of either sign, all access paths (layers, chunks, tiles, CSV, GeoTIFF, BAG), SR and VR",
"Tests cover two fixed cases of one or two paths.",
["bgrid.py","tile.py"],[("positive_up / get_tile_data","bgrid.py"),("z_positive_up","tile.py get_layers_by_name")]))
L.append(P("C19","A rejected addition leaves the grid exactly as it was",
"An addition is refused when its name is already present, its coordinate system or vertical reference conflicts with the grid's (any two MLLW-based references are compatible), or its data is not usable, and after a refusal the soundings, sources, metadata, layers and flags, in memory and on disk, are what they were before.",
["inputs","histories"],"all refusals at any point of any history",
"Tests check that an exception is raised, not the state afterwards.",
["bgrid.py"],[("add_points/_update_metadata/_validate_input_data","bgrid.py")]))
L.append(P("C20","Gridding is refused when it would mix algorithms or has nothing to grid",
"Gridding with a different algorithm without clearing the old results, an unknown algorithm, a resolution that is not a power of two, or gridding an empty grid is refused, and leaves the grid able to do everything it could do before with the same results. Creating a grid with invalid options is refused too.",
["inputs","histories","configurations"],"all refused calls at any point of any history",
"Tests check the exception only.",
["bgrid.py","tile.py","convenience.py"],[("grid() guards","bgrid.py"),("new_grid","tile.py"),("_validate_create_options","convenience.py")]))
L.append(P("C21","Cell, density and coverage statistics agree with the gridded cells",
"The number of cells per resolution, the list of soundings per populated cell (per cell and per square metre, alone or paired with depth), the list of layer values and the covered area agree exactly with the populated cells of the grid.",
["inputs","histories"],"all gridded states, several resolutions, SR and VR, memory and disk",
"Tests check totals on one full mesh.",
["bgrid.py","tile.py"],[("cell_count, density_count, coverage_area_*","bgrid.py, tile.py"),("return_layer_values","bgrid.py")]))
L.append(P("C22","A source's own layer is computed from that source's soundings only",
"Asking for the layer of one source by name returns, in each cell, the result of the grid's algorithm applied to that source's soundings alone, and no data in cells (and tiles) where that source has none.",
["inputs","histories"],"all layouts of sources over tiles and cells, both algorithms, after removals of other sources and reloads",
"Tests query one source in a two-source grid.",
["tile.py","bgrid.py"],[("container query","tile.py get_layers_by_name, _grid_algorithm_initialize")]))
L.append(P("C23","Backscatter grids carry intensity everywhere and refuse BAG export",
"A grid created for backscatter reports its values under the intensity layer in every tile and sub tile, never flips their sign, keeps that mode after saving and reloading, and refuses BAG export.",
["configurations","histories"],"all four grid classes, histories, access paths",
"Tests create one single resolution backscatter grid.",
["bgrid.py","tile.py","maingrid.py","backends.py"],[("is_backscatter, depth_key","bgrid.py, tile.py"),("_build_tile","maingrid.py")]))
L.append(P("C24","Neighbour queries return exactly the soundings near the shared border",
"The points returned for a tile and a buffer distance are exactly the soundings of its up to four edge neighbours that lie within that distance of the tile's border with that neighbour, and none when there are none.",
["inputs","configurations"],"all tile layouts, buffers, positions of the tile, SR and VR",
"Tests check one SR layout.",
["bgrid.py"],[("get_tile_neighbors/get_tile_neighbor_points","bgrid.py")]))
L.append(P("C25","Slope layers describe the soundings currently gridded",
"For every cell whose soundings lie on one plane and determine it, the x and y slope layers return that plane's slopes, and after the soundings change and are regridded they describe the new soundings, never the old ones.",
["inputs","histories"],"all planes, point layouts and edit/grid/query histories",
"Tests check slopes of one static dataset.",
["algorithms.py","tile.py"],[("calculate_slopes","algorithms.py"),("_clear_temp_data/_run_slopes","tile.py")]))
L.append(P("C26","The metadata report is complete and true",
"The grid's attribution names exactly the sources present, each with the file list it was added with, and reports the coordinate system, vertical reference, extents, tile count, resolutions, algorithm and resolution setting of the current grid. The reported time range covers the times of every addition accepted so far. The simple facts (empty or not, gridded or not, layers present, uncertainty present, sign of the depths, line names) and the printed summary agree with this.",
["histories","inputs"],"all histories; source names with suffixes that resemble one another; unordered times",
"Tests compare one attribution dictionary.",
["bgrid.py"],[("return_attribution","bgrid.py"),("_update_metadata","bgrid.py")]))
L.append(P("C27","Reading never changes the grid",
"Any query, statistic, iteration or export leaves the soundings, sources, layers, layer names, resolutions and flags as they were (slope layers, a documented cache computed on demand, aside), and repeating the query gives the same answer. What a query returns belongs to the caller: overwriting the returned arrays changes nothing in the grid or in later answers.",
["histories","configurations"],"all queries in all reachable gridded states, memory and disk",
"No test compares the state before and after a query.",
["bgrid.py","tile.py"],[("get_layers_by_name and all return_*/get_* methods","bgrid.py, tile.py")]))
L.append(P("C28","CUBE gridding gives each tile's estimator exactly the soundings of the tile and its border",
"With the cube algorithm every populated cell reports the depth, total uncertainty, hypothesis count and hypothesis ratio that the CUBE estimator (package bathycube, when installed) gives for it when it is asked with the cells of that tile, all the soundings of that tile, the soundings of the neighbouring tiles (and sub tiles of the same tile) within a tenth of the tile width of the shared edges, and the method, IHO order and variance selection asked for: no more and no fewer, sequential or parallel, in memory or on disk, however the points arrived, with density counting the soundings of the cell as for the other algorithms. A tile keeps and reports the parameters it was last gridded with. Without the estimator or without uncertainties cube is refused before anything changes.",
["inputs","histories","configurations"],"all point sets, resolutions, parameters, grid kinds and histories",
"The estimator is not part of the repository and its tests are skipped where it is missing; which soundings reach it depends on neighbours, history and the way the run is scheduled.",
["bgrid.py","tile.py","algorithms.py"],[("nb_cube, calculate_cube","algorithms.py, tile.py"),("_grid_regular, _grid_parallel, border points of neighbours","bgrid.py")]))
L.append(P("C29","Plots and histograms show exactly the populated cells",
"The plot of a layer draws, for each resolution shown, every populated cell at its own place with its value and nothing else; each histogram counts every populated cell of the grid once, in the bin its value falls in; the curves over depth give for each depth bin an average of the cells in it.",
["inputs","histories"],"all gridded states with one or several resolutions, all layers, all bin counts",
"Tests never look at what is drawn.",
["bgrid.py","tile.py"],[("plot and plot_*_histogram / plot_*_vs_depth","bgrid.py"),("layer values and densities","tile.py")]))
L.append(P("C30","Creating, saving and opening grids by folder never mixes grids up",
"A new grid gets the folder asked for when that is absent or empty, and otherwise a fresh one next to it; what is in a folder that is taken is never touched, and a refused request creates nothing. Saving puts exactly that grid into the folder, in place of any grid of its type there and beside anything else, and the grid lives there from then on; the folder it came from keeps its copy. A folder is reported as a grid folder when a grid is in it and opens when exactly one is, with the type, settings, soundings and resolutions last written; otherwise opening is refused. Opening, asking and closing change no file, and no operation writes to a folder other than that of its grid.",
["histories","configurations"],"all histories of creating, editing, gridding, saving over, opening and deleting grids of the four types in shared folders, folders with foreign content, relative and absolute names",
"Tests save one grid to a new folder and load it once; they never save over another grid, share a folder between grids or look at what else changed.",
["convenience.py","backends.py","utilities.py","bgrid.py"],[("create_grid/load_grid/is_bathygrid","convenience.py"),("BaseStorage.save/load, tile folders","backends.py"),("create_folder","utilities.py")],
[dict(name="<type>_Root folder",meaning="metadata, and one folder for each tile",where="backends.py")]))
L.append(P("C31","Grids depend on their own history alone; values handed in or out belong to the caller",
"Several grids in one process do not influence each other: every operation or query on one leaves all others exactly as they are, and each grid answers as if it were alone, also when their tiles, sources and soundings have the same names, places and values and when they share a dask cluster. Soundings, file lists and gridding parameters handed in are not changed by the call, and changing them afterwards does not change the grid; layers, reports, lists of resolutions and other answers can be changed by the caller without changing the grid or later answers.",
["histories","schedules"],"all interleavings of histories of two grids, in memory and on disk, sequential and parallel, with callers that overwrite everything they handed in or were given",
"Tests use one grid at a time and never write to what they handed in or were given.",
["bgrid.py","tile.py","grids.py","backends.py","maingrid.py"],[("add_points, grid, return_attribution, layer queries","bgrid.py"),("add_points, get_layers_by_name","tile.py"),("instance attributes","grids.py")]))
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
