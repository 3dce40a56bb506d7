"""Which histories and which clauses of the specification decide each property.

jobs: (name, profile, number of histories in the quick tier, in the thorough tier, options)
clauses: fnmatch patterns over "op/clause" ("op" is the operation of the event at which the clause failed; refused operations are "op!").
fresh: only count clauses that did not already fail at the previous event of the history.
"""
from gen import profile

SRQ = ['layer', 'trim', 'surf', 'xy', 'tiles', 'chunks']
READS = ['layer', 'trim', 'surf', 'xy', 'tiles', 'chunks', 'stats', 'csv', 'tif', 'bag', 'cont', 'slope', 'nb', 'attr', 'ext', 'facts', 'misc']
ALLQ = READS
LIVE = ['*/exc.add', '*/exc.remove', '*/exc.grid', '*/exc.reload', '*/exc.saveload', '*/obs.unreadable']   # the history could not go on: counts for every property
SAFE = dict(epsgs=[26917, 32611])
DISK = dict(disk=1.0, npts=(1, 10), nops=(5, 8), maxpts=60, spread=1, leaves=4)


def mem(**kw):
    return profile(disk=0.0, **kw)


def disk(**kw):
    return profile(**dict(DISK, **kw))


def tour(n, nt, cfg='GenSR', deep=6, length=14, **kw):
    """histories that cover the transition graph of the contract specification"""
    opt = dict(tour=cfg, deep=deep, len=length)
    for k in ('dask', 'reload_alt', 'accepted'):
        if k in kw:
            opt[k] = kw.pop(k)
    kw.setdefault('kinds', [])
    kw.setdefault('disk', 0.0)
    return (('t' + cfg[3:]).lower() + ('d' if opt.get('dask') else 'f' if kw['disk'] else ''), profile(**kw), n, nt, opt)


PROPS = {
    'C01': dict(clauses=['*/src.*', '*/exc.add', '*/exc.remove', '*/obs.unreadable'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=['attr'], nq=(1, 1), w=dict(add=6, remove=3, grid=2, q=.5)), 700, 9000, {}),
                      ('long', mem(kinds=['attr'], nq=(1, 1), nops=(14, 22), npts=(1, 8), w=dict(add=6, remove=4, grid=1, q=.2)), 100, 2000, {}),
                      ('disk', disk(kinds=['attr'], w=dict(add=5, remove=3, grid=2, reload=2, q=0)), 32, 400, {'reload_alt': False}),
                      tour(40, 6000), tour(40, 6000, 'GenVR'), tour(40, 3000, 'GenMechSRMem'), tour(40, 3000, 'GenMechVRMem'), tour(10, 600, 'GenMechVRDisk', reload_alt=False)]),
    'C02': dict(clauses=['*/leaf.*', '*/tile.*', '*/ext.*', '*/exc.add', '*/exc.remove', '*/obs.unreadable'], models=['MCBathy', 'MCGrow'],
                jobs=[('mem', mem(kinds=['ext'], nq=(1, 1), origin=.5, spread=4, w=dict(add=8, remove=2, grid=1, q=1)), 700, 9000, {}),
                      ('grow', mem(kinds=['ext'], nq=(1, 1), origin=.5, spread=9, nops=(8, 14), npts=(1, 3), w=dict(add=8, remove=1, grid=1, q=.2)), 150, 3000, {}),
                      ('disk', disk(kinds=['ext'], nq=(1, 1), origin=.5, spread=2, w=dict(add=6, remove=2, grid=1, reload=2)), 24, 300, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR')]),
    'C03': dict(clauses=['*/src.*', '*/leaf.set', '*/leaf.place', '*/tile.set', 'remove/ext.same', 'remove/meta.*', 'remove/resl.same', '*/exc.remove', '*/exc.add', '*/exc.grid', '*/obs.unreadable'],
                models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=['attr'], nq=(1, 1), readd=.7, spread=1, w=dict(add=5, remove=5, grid=2, q=.3, rmunknown=1)), 650, 9000, {}),
                      ('long', mem(kinds=['attr'], nq=(1, 1), readd=.7, spread=1, nops=(14, 24), npts=(1, 8), w=dict(add=5, remove=4, grid=1, q=.1, rmunknown=.5)), 100, 2000, {}),
                      ('disk', disk(kinds=['attr'], readd=.7, w=dict(add=4, remove=4, grid=2, reload=2, q=0)), 32, 400, {'reload_alt': False}),
                      tour(40, 6000), tour(40, 6000, 'GenVR'), tour(40, 3000, 'GenMechSRMem'), tour(40, 3000, 'GenMechVRMem')]),
    'C04': dict(clauses=['*/g.mean.*', '*/exc.grid', '*/exc.add', '*/obs.unreadable'], models=['MCBathy'],
                jobs=[('mem', mem(algs=['mean'], kinds=[], w=dict(q=0), bs=.15), 700, 9000, {}),
                      ('dense', mem(algs=['mean'], kinds=[], w=dict(q=0), npts=(20, 60), maxpts=190, nops=(3, 5)), 150, 2000, {}),
                      ('crowd', mem(algs=['mean'], kinds=[], w=dict(q=0), npts=(100, 160), maxpts=420, nops=(3, 4), crowd=.8, spread=0), 30, 400, {}),
                      ('nothtv', mem(algs=['mean'], kinds=[], w=dict(q=0), tv=.4, th=.6, thtv=False), 150, 2000, {}),
                      ('disk', disk(algs=['mean'], kinds=[], w=dict(q=0, reload=1)), 24, 300, {'reload_alt': False}),
                      tour(60, 6000, 'GenVR', algs=['mean'])]),
    'C05': dict(clauses=['*/g.shoalest.*', '*/exc.grid', '*/exc.add', '*/obs.unreadable'], models=['MCBathy'],
                jobs=[('mem', mem(algs=['shoalest'], kinds=[], w=dict(q=0), zs=['rand', 'ties', 'ties', 'flat', 'deep', 'neg']), 700, 9000, {}),
                      ('dense', mem(algs=['shoalest'], kinds=[], w=dict(q=0), npts=(20, 60), maxpts=190, nops=(3, 5), zs=['rand', 'ties', 'neg']), 150, 2000, {}),
                      ('crowd', mem(algs=['shoalest'], kinds=[], w=dict(q=0), npts=(100, 160), maxpts=420, nops=(3, 4), crowd=.8, spread=0), 30, 400, {}),
                      ('nothtv', mem(algs=['shoalest'], kinds=[], w=dict(q=0), tv=.4, th=.6, thtv=False), 150, 2000, {}),
                      ('disk', disk(algs=['shoalest'], kinds=[], w=dict(q=0, reload=1)), 24, 300, {'reload_alt': False}),
                      tour(60, 6000, 'GenVR')]),
    'C06': dict(clauses=['*/g.*', '*/exc.grid', '*/exc.add', '*/exc.remove', '*/exc.reload', '*/obs.unreadable'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=[], w=dict(q=0, add=4, remove=3, grid=5), nops=(7, 12), newalg=.3, spread=1, maxpts=90), 650, 9000, {}),
                      ('tight', mem(kinds=[], w=dict(q=0, add=4, remove=3, grid=6), nops=(10, 18), npts=(1, 6), spread=0, keepres=.6), 150, 3000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=4, remove=3, grid=5, reload=3), nops=(6, 10), newalg=.3, spread=0), 40, 500, {'reload_alt': False}),
                      tour(40, 6000), tour(40, 6000, 'GenVR'), tour(40, 3000, 'GenMechSRMem'), tour(40, 3000, 'GenMechVRMem'), tour(12, 600, 'GenMechSRDisk', reload_alt=False),
                      ('cube', mem(cube=1, kinds=[], w=dict(q=0, add=4, remove=3, grid=5), nops=(7, 12), newalg=.4, spread=1, maxpts=90), 120, 1800, {})]),
    'C07': dict(clauses=['*/g.*', '*/exc.grid', '*/exc.add', '*/exc.remove', '*/exc.reload', 'grid/pend.*', '*/obs.unreadable', '*/alt_par.layers', '*/alt_par.outcome'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=[], w=dict(q=0, add=4, remove=2, grid=5), update=.85, nops=(7, 12), keepres=.6, spread=2), 650, 9000, {}),
                      ('auto', mem(kinds=[], w=dict(q=0, add=4, remove=2, grid=5), update=.85, nops=(7, 12), auto=.8, spread=2, clear=.1), 150, 2000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=4, remove=2, grid=5, reload=2), update=.85, nops=(6, 10), keepres=.6, spread=2), 32, 400, {'reload_alt': False}),
                      ('dask', mem(kinds=[], w=dict(q=0, add=4, remove=1, grid=5), update=.85, nops=(5, 8), twins='dask', keepres=.5, npts=(1, 8)), 24, 400, {'dask': 'threads'}),
                      tour(60, 6000), tour(60, 6000, 'GenVR'), tour(8, 300, 'GenVR', dask='threads', twins='dask', length=8),
                      ('cube', mem(cube=1, kinds=[], w=dict(q=0, add=4, remove=2, grid=5), update=.85, nops=(7, 12), keepres=.6, spread=2), 120, 1800, {})]),
    'C08': dict(clauses=['*/pend.*', '*/alt_reload.pend', '*/alt_reload.fails', '*/exc.grid', '*/exc.add', '*/exc.remove', '*/obs.unreadable'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=['layer'], nq=(1, 1), w=dict(q=.5, add=5, remove=3, grid=4, badadd=.5, badgrid=.5), update=.6, spread=2), 700, 9000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=4, remove=3, grid=4, reload=2), update=.6, spread=1), 48, 600, {}),
                      tour(60, 6000), tour(60, 6000, 'GenVR'), tour(8, 600, 'GenMechSRDisk', length=9), tour(8, 600, 'GenMechVRDisk', length=9)]),
    'C09': dict(clauses=['*/alt_reload.*', '*/alt_live.*', '*/exc.*', '*/obs.unreadable', '*/src.*', '*/leaf.set', '*/g.res', '*/g.kept', '*/pend.*', '*/resl.held'], models=['MCMech'],
                jobs=[('live', disk(kinds=['layer', 'xy', 'attr'], nq=(1, 2), twins='live', w=dict(add=4, remove=3, grid=4, reload=4, q=.7, rmunknown=.1)), 32, 500, {}),
                      ('one', disk(kinds=[], w=dict(add=4, remove=3, grid=4, reload=1, q=0, saveload=.2), nops=(6, 10)), 24, 500, {}),
                      ('regrid', disk(kinds=[], w=dict(add=2, remove=1, grid=5, reload=.6, q=0), clear=.35, update=.5, keepres=.25, auto=.2, newalg=.3, nops=(6, 9), spread=0), 32, 500, {}),
                      tour(8, 1200, 'GenVR', disk=1.0, twins='live', treload=.3, length=9, accepted=True), tour(10, 1200, 'GenMechSRDisk', twins='live', length=9), tour(10, 1200, 'GenMechVRDisk', twins='live', length=9),
                      ('cube', disk(cube=1, kinds=['layer'], nq=(1, 1), w=dict(add=3, remove=2, grid=4, reload=2, q=.3), newalg=.4), 14, 250, {})]),
    'C10': dict(clauses=['*/alt_mem.*', '*/alt_npy.*', '*/alt_zarr.*', '*/alt_saved*', '*/exc.*', '*/obs.unreadable'], models=['MCMech'],
                jobs=[('three', disk(disk=.4, twins='storage', kinds=SRQ + ['stats', 'attr', 'csv'], nq=(2, 3), w=dict(add=4, remove=2, grid=4, reload=.5, saveload=.7, q=1.5)), 40, 500, {'reload_alt': False}),
                      ('save', disk(disk=.3, kinds=SRQ, nq=(1, 2), swap=.7, w=dict(add=3, remove=2, grid=3, saveload=2, q=1)), 48, 600, {'reload_alt': False}),
                      tour(10, 800, 'GenSR', disk=.4, twins='storage', tsave=.15, length=9, reload_alt=False), tour(10, 800, 'GenVR', disk=.4, twins='storage', tsave=.15, length=9, reload_alt=False),
                      ('cube', disk(cube=1, disk=.4, twins='storage', kinds=SRQ + ['stats', 'csv'], nq=(2, 3), w=dict(add=3, remove=2, grid=4, reload=.5, saveload=.7, q=1)), 14, 200, {'reload_alt': False})]),
    'C11': dict(clauses=['*/alt_par.*', '*/alt_reload_par.*', '*/exc.*', '*/obs.unreadable'], models=['MCPar'],
                jobs=[('mem', mem(kinds=['layer'], nq=(1, 1), w=dict(q=.3, add=4, remove=1, grid=4), nops=(4, 7), twins='dask', npts=(3, 20), spread=2, update=.5), 60, 1000, {'dask': 'threads'}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=3, remove=1, grid=4), nops=(4, 6), twins='dask', npts=(2, 12), spread=1), 18, 300, {'dask': 'threads'}),
                      ('procs', profile(disk=.3, kinds=['layer'], nq=(1, 1), w=dict(q=.3, add=3, remove=1, grid=3), nops=(3, 5), twins='dask', npts=(3, 20), spread=2, update=.5), 5, 80, {'dask': 'procs'}),
                      tour(16, 900, 'GenSR', dask='threads', twins='dask', length=8), tour(16, 900, 'GenVR', dask='threads', twins='dask', length=8),
                      ('cube', mem(cube=1, kinds=['layer'], nq=(1, 1), w=dict(q=.3, add=4, remove=1, grid=4), nops=(4, 6), twins='dask', npts=(3, 20), spread=1, edge=.5), 16, 300, {'dask': 'threads'})]),
    'C12': dict(clauses=['*/res.*', '*/g.res', '*/g.*.shape', '*/meta.mean', '*/exc.grid', '*/obs.unreadable'], models=['MCBathy'],
                jobs=[('depth', mem(kinds=[], w=dict(q=0), auto=.85, automodes=['depth'], zs=['table', 'table', 'deep', 'rand', 'neg'], f4=.05, newalg=0, bs=.03), 500, 8000, {}),
                      ('density', mem(kinds=[], w=dict(q=0), auto=.85, automodes=['density'], fill=.7, maxpts=190, zs=['table', 'rand', 'deep'], newalg=0,
                                      sr_sizes=[(1024, 1024, [64, 128, 256]), (512, 512, [64, 128]), (256, 256, [32, 64]), (64, 64, [16]), (2048, 2048, [256])],
                                      vr_sizes=[(1024, 512, [64, 128]), (1024, 1024, [128]), (512, 256, [64]), (2048, 1024, [128]), (256, 64, [16])]), 350, 5000, {}),
                      ('abyss', mem(kinds=[], w=dict(q=0), auto=.9, zs=['abyss'], f4=0, newalg=0, bs=0, npts=(1, 12), maxpts=60, nops=(3, 5)), 60, 600, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, reload=2), auto=.9, zs=['table', 'rand'], fill=.3), 24, 300, {'reload_alt': False}),
                      tour(40, 4000), tour(40, 4000, 'GenVR')]),
    'C13': dict(clauses=['*/resl.*', '*/alt_reload.resl', '*/alt_reload.fails', '*/alt_par.resl', '*/exc.grid', '*/exc.remove', '*/obs.unreadable'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=['attr'], nq=(1, 1), w=dict(q=.5, add=4, remove=4, grid=5), auto=.4, nops=(7, 12), keepres=.2, spread=2), 700, 9000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=4, remove=4, grid=5, reload=2), auto=.4, nops=(6, 10), keepres=.2, spread=1), 40, 500, {}),
                      tour(60, 6000), tour(60, 6000, 'GenVR'), tour(10, 600, 'GenMechVRDisk', length=9), tour(8, 300, 'GenVR', dask='threads', twins='dask', length=8)]),
    'C14': dict(clauses=['*/layer.*', '*/trim.*', '*/surf.*', '*/exc.layer', '*/exc.trim', '*/exc.surf', '*/exc.q', '*/rep.layer', '*/rep.trim', '*/rep.surf', '*/lay.names'], models=['MCBathy', 'MCSurf'],
                jobs=[('mem', mem(kinds=['layer', 'trim', 'surf'], nq=(3, 5), w=dict(q=3), keepres=.4), 550, 8000, {}),
                      ('mixed', mem(kinds=['layer', 'trim', 'surf'], nq=(3, 5), w=dict(q=3), keepres=.1, clear=.1, auto=.4, spread=2), 150, 2000, {}),
                      ('disk', disk(kinds=['layer', 'trim', 'surf'], nq=(2, 4), w=dict(q=3, reload=2)), 32, 400, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['layer', 'trim', 'surf'], nq=(2, 3), tq=.3),
                      ('cube', mem(cube=1, kinds=['layer', 'trim', 'surf'], nq=(3, 5), w=dict(q=3), keepres=.4), 100, 1500, {})]),
    'C15': dict(clauses=['*/xy.*', '*/exc.xy', '*/exc.q', '*/rep.xy'], models=['MCBathy', 'MCSurf'],
                jobs=[('mem', mem(kinds=['xy'], nq=(3, 5), w=dict(q=3), keepres=.3), 550, 8000, {}),
                      ('mixed', mem(kinds=['xy'], nq=(3, 5), w=dict(q=3), keepres=.1, clear=.1, auto=.4, spread=1), 200, 3000, {}),
                      ('disk', disk(kinds=['xy'], nq=(2, 4), w=dict(q=3, reload=2)), 32, 400, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['xy'], nq=(2, 3), tq=.3),
                      ('cube', mem(cube=1, kinds=['xy'], nq=(3, 5), w=dict(q=3), keepres=.3), 100, 1500, {})]),
    'C16': dict(clauses=['*/chunks.*', '*/tiles.*', '*/exc.chunks', '*/exc.tiles', '*/exc.q', '*/rep.chunks', '*/rep.tiles'], models=['MCChunk'],
                jobs=[('mem', mem(kinds=['chunks', 'chunks', 'tiles'], nq=(3, 5), w=dict(q=3), keepres=.4, spread=3), 550, 8000, {}),
                      ('wide', mem(kinds=['chunks', 'tiles'], nq=(3, 5), w=dict(q=3, remove=3), keepres=.4, spread=6, npts=(1, 5), nops=(8, 12)), 100, 2000, {}),
                      ('disk', disk(kinds=['chunks', 'tiles'], nq=(2, 4), w=dict(q=3, reload=2), spread=2), 32, 400, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['chunks', 'tiles'], nq=(2, 3), tq=.3),
                      ('cube', mem(cube=1, kinds=['chunks', 'chunks', 'tiles'], nq=(3, 5), w=dict(q=3), keepres=.4, spread=3), 100, 1500, {})]),
    'C17': dict(clauses=['*/csv.*', '*/tif.*', '*/bag.*', '*/xfmt.*', '*/exc.xfmt', '*/exc.csv', '*/exc.tif', '*/exc.bag', '*/exc.q'], models=['MCChunk'],
                jobs=[('mem', mem(kinds=['csv', 'tif', 'bag', 'csv', 'tif', 'bag', 'xfmt'], nq=(2, 4), w=dict(q=2), epsgs=[26917, 32611, 4326], nops=(4, 7), keepres=.5), 150, 2500, {}),
                      ('disk', disk(kinds=['csv', 'tif', 'bag', 'csv', 'tif', 'bag', 'xfmt'], nq=(2, 3), w=dict(q=2, reload=2), epsgs=[26917, 32611]), 16, 250, {'reload_alt': False}),
                      ('cube', mem(cube=1, kinds=['csv', 'tif', 'bag', 'csv', 'tif', 'bag', 'xfmt'], nq=(2, 4), w=dict(q=2), epsgs=[26917, 32611, 4326], nops=(4, 7), keepres=.5), 40, 700, {})]),
    'C18': dict(clauses=['*/layer.values', '*/trim.values', '*/tiles.values', '*/chunks.values', '*/csv.*', '*/tif.values', '*/tif.names', '*/bag.values', '*/bag.minmax', '*/xy.*',
                         '*/exc.layer', '*/exc.trim', '*/exc.surf', '*/exc.xy', '*/exc.tiles', '*/exc.chunks', '*/exc.csv', '*/exc.tif', '*/exc.bag', '*/exc.q'], models=['MCBathy'],
                jobs=[('mem', mem(kinds=SRQ, nq=(3, 5), w=dict(q=3), vrefs=['up', 'up', 'down', 'plain', 'mllwup', 'none'], zs=['neg', 'neg', 'rand', 'deep'], bs=.15), 450, 7000, {}),
                      ('export', mem(kinds=['csv', 'tif', 'bag'], nq=(2, 3), w=dict(q=2), vrefs=['up', 'up', 'down', 'plain', 'mllwup', 'none'], zs=['neg', 'neg', 'rand'], nops=(4, 6), bs=.1, **SAFE), 90, 1500, {}),
                      ('disk', disk(kinds=SRQ + ['csv', 'tif'], nq=(2, 4), w=dict(q=3, reload=2), vrefs=['up', 'down', 'mllwup'], zs=['neg', 'rand'], **SAFE), 24, 300, {'reload_alt': False}),
                      ('cube', mem(cube=1, kinds=SRQ + ['csv', 'tif'], nq=(2, 4), w=dict(q=2), vrefs=['up', 'up', 'down', 'mllwup'], zs=['neg', 'neg', 'rand'], nops=(4, 6), bs=.1, **SAFE), 60, 900, {})]),
    'C19': dict(clauses=['add*/reject.add', 'add!/*', 'add/exc.add', '*/obs.unreadable'], fresh=True, models=['MCBathy'],
                jobs=[('mem', mem(kinds=['layer', 'attr'], nq=(1, 2), w=dict(q=.5, add=4, remove=2, grid=3, badadd=6)), 600, 9000, {}),
                      ('mllw', mem(kinds=['attr'], nq=(1, 1), w=dict(q=.5, add=4, remove=1, grid=1, badadd=4), vrefs=['mllw1', 'mllw2', 'mllwup', 'none', 'up'], bad=['vref', 'epsg', 'dup'], epsgs=[26917, 32611, 0]), 150, 2000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=3, remove=1, grid=3, badadd=5, reload=1)), 36, 450, {}),
                      tour(60, 6000, 'GenMeta')]),
    'C20': dict(clauses=['grid*/reject.grid', 'grid!/*', 'grid/exc.grid', 'grid/g.*', 'mk*/*', '*/obs.unreadable', '*/exc.q'], fresh=True, models=['MCBathy'],
                jobs=[('mem', mem(kinds=['layer', 'xy', 'cont'], nq=(1, 2), w=dict(q=1, add=3, remove=2, grid=4, badgrid=6, mk=1)), 600, 9000, {}),
                      ('empty', mem(kinds=['attr'], nq=(1, 1), npts=(1, 3), w=dict(q=.3, add=2, remove=4, grid=3, badgrid=4), nops=(6, 10)), 120, 2000, {}),
                      ('disk', disk(kinds=[], w=dict(q=0, add=3, remove=1, grid=3, badgrid=5, reload=1, mk=.3)), 32, 400, {}),
                      ('cube', mem(cube=1, kinds=['layer'], nq=(1, 1), w=dict(q=.7, add=3, remove=2, grid=4, badgrid=5)), 80, 1200, {}),
                      ('nocube', mem(nocube=True, kinds=['layer'], nq=(1, 1), w=dict(q=.7, add=3, remove=2, grid=3, badgrid=6)), 60, 900, {'nocube': True}),
                      tour(60, 6000, 'GenBad')]),
    'C21': dict(clauses=['*/stats.*', '*/exc.stats', '*/exc.q', '*/rep.stats'], models=['MCBathy'],
                jobs=[('mem', mem(kinds=['stats'], nq=(1, 2), w=dict(q=3), keepres=.3), 600, 9000, {}),
                      ('mixed', mem(kinds=['stats'], nq=(1, 2), w=dict(q=3), keepres=.1, clear=.1, auto=.4, spread=2), 150, 2000, {}),
                      ('disk', disk(kinds=['stats'], nq=(1, 2), w=dict(q=3, reload=2)), 32, 400, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['stats'], nq=(1, 1), tq=.3),
                      ('cube', mem(cube=1, kinds=['stats'], nq=(1, 2), w=dict(q=3), keepres=.3), 100, 1500, {})]),
    'C22': dict(clauses=['*/cont.*', '*/exc.cont', '*/rep.cont', '*/exc.q'], models=['MCBathy', 'MCMech'],
                jobs=[('mem', mem(kinds=['cont'], nq=(3, 5), w=dict(q=3, remove=3), clear=.9, regrid_after=.8, update=0, spread=2, zs=['rand', 'ties', 'neg', 'deep']), 600, 9000, {}),
                      ('disk', disk(kinds=['cont'], nq=(2, 4), w=dict(q=3, reload=2, remove=3), clear=.9, regrid_after=.8, update=0), 36, 450, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['cont'], nq=(2, 3), tq=.4),
                      ('cube', mem(cube=1, kinds=['cont'], nq=(2, 4), w=dict(q=3, remove=3), clear=.9, regrid_after=.8, update=0, spread=2, zs=['rand', 'ties', 'neg']), 100, 1500, {})]),
    'C23': dict(clauses=['*/bag.refused', '*/layer.*', '*/trim.*', '*/tiles.*', '*/chunks.*', '*/csv.*', '*/tif.*', '*/xy.*', '*/stats.*', '*/lay.names', '*/meta.bs', '*/g.*', '*/alt_*.meta', '*/alt_*.layers',
                         '*/alt_*.type', '*/alt_*.fails', '*/exc.*', '*/obs.unreadable'], models=['MCBathy'],
                jobs=[('mem', mem(bs=1, kinds=SRQ + ['stats', 'csv', 'tif', 'bag'], nq=(3, 5), w=dict(q=3), vrefs=['up', 'plain', 'down'], nops=(5, 8), **SAFE), 220, 3000, {}),
                      ('disk', disk(bs=1, disk=.6, kinds=SRQ + ['bag', 'stats'], nq=(2, 3), w=dict(q=2, reload=2, saveload=1), vrefs=['up', 'plain'], **SAFE), 48, 500, {})]),
    'C24': dict(clauses=['*/nb.*', '*/exc.nb', '*/exc.q', '*/rep.nb'], models=['MCNb'],
                jobs=[('mem', mem(kinds=['nb'], nq=(4, 7), w=dict(q=4, grid=1, remove=2), spread=1, vr=.6), 650, 9000, {}),
                      ('packed', mem(kinds=['nb'], nq=(4, 7), w=dict(q=4, grid=0, remove=2, add=6), spread=1, npts=(10, 30), vr=.6, firstgrid=0), 150, 2000, {}),
                      ('disk', disk(kinds=['nb'], nq=(3, 5), w=dict(q=3, grid=1, reload=2), spread=1), 28, 350, {'reload_alt': False}),
                      tour(40, 3000, 'GenVR', kinds=['nb'], nq=(2, 3), tq=.4)]),
    'C25': dict(clauses=['*/slope.*', '*/exc.slope', '*/rep.slope', '*/exc.q'], models=['MCBathy'],
                jobs=[('mem', mem(kinds=['slope'], nq=(1, 2), plane=1, noise=.1, w=dict(q=4), clear=.9, regrid_after=.8, update=.2, auto=.1, f4=0, xyf4=0, mixdt=0, bs=0, far=0, spread=1,
                                  sr_sizes=[(256, 256, [32, 64, 128, 256]), (64, 64, [16, 32, 64]), (512, 512, [64, 128, 256])],
                                  vr_sizes=[(256, 64, [16, 32, 64]), (128, 64, [16, 32, 64]), (512, 128, [32, 64, 128])]), 450, 7000, {}),
                      ('again', mem(kinds=['slope', 'slope', 'layer'], nq=(1, 2), plane=1, noise=.1, w=dict(q=4, grid=4), clear=.3, keepres=.9, regrid_after=.6, update=.5, auto=0, f4=0, xyf4=0, mixdt=0, bs=0, far=0, spread=0,
                                    sr_sizes=[(256, 256, [64, 128, 256])], vr_sizes=[(256, 64, [32, 64]), (512, 128, [64, 128])], nops=(8, 12)), 250, 3000, {}),
                      ('cycle', mem(kinds=['slope'], nq=(1, 1), plane=1, noise=.1, clear=0, keepres=1, update=.5, auto=0, newalg=0, f4=0, xyf4=0, mixdt=0, bs=0, far=0, utm=0, spread=0, npts=(8, 30),
                                    sr_sizes=[(256, 256, [64, 128])], vr_sizes=[(128, 64, [16, 32]), (512, 256, [64, 128])],
                                    script=['add add grid q remove grid q', 'add add grid q add grid q remove grid q', 'add add grid q remove add grid q remove grid q', 'add add grid q remove|add remove|add|grid grid q']), 150, 3000, {}),
                      ('disk', disk(kinds=['slope'], nq=(1, 2), plane=1, w=dict(q=3, reload=2), clear=.9, regrid_after=.8, update=.2, auto=0, f4=0, xyf4=0, mixdt=0, bs=0, far=0,
                                    sr_sizes=[(256, 256, [64, 128, 256])], vr_sizes=[(256, 64, [32, 64])]), 24, 300, {'reload_alt': False}),
                      tour(30, 3000, 'GenVR', kinds=['slope', 'cont'], nq=(2, 3), tq=.4)]),
    'C26': dict(clauses=['*/attr.*', '*/facts.*', '*/exc.facts', '*/rep.facts', '*/rep.attr', '*/meta.*', '*/ext.report', '*/exc.attr', '*/exc.ext', '*/exc.q', '*/alt_reload.meta', '*/alt_reload.sources', '*/obs.unreadable', '*/src.names', '*/src.files', '*/src.time'], models=['MCBathy'],
                jobs=[('mem', mem(kinds=['attr', 'attr', 'ext', 'facts', 'facts', 'misc'], nq=(1, 2), w=dict(q=2, add=5, remove=3, grid=3, badadd=1, badgrid=.5), times=.8), 650, 9000, {}),
                      ('clock', mem(kinds=['attr'], nq=(1, 1), w=dict(q=2, add=4, remove=1, grid=.5), pause=True, nops=(5, 7)), 24, 100, {}),
                      ('disk', disk(kinds=['attr', 'facts'], nq=(1, 2), w=dict(q=2, add=4, remove=2, grid=3, reload=2)), 40, 500, {}),
                      tour(60, 6000, 'GenMeta', kinds=['attr'], nq=(1, 1), tq=.2),
                      ('cube', mem(cube=1, kinds=['attr', 'facts'], nq=(1, 2), w=dict(q=2, add=4, remove=2, grid=4, badgrid=.5)), 80, 1200, {})]),
    'C27': dict(clauses=['q/src.*', 'q/leaf.*', 'q/tile.*', 'q/g.*', 'q/lay.names', 'q/resl.*', 'q/ext.*', 'q/pend.*', 'q/meta.*', 'q/rep.*', 'q/obs.unreadable', 'q/alt_reload.*'], fresh=True, models=['MCBathy'],
                jobs=[('mem', mem(kinds=READS, nq=(4, 7), w=dict(q=4), **SAFE), 260, 4000, {}),
                      ('plot', mem(kinds=['plot', 'misc', 'cont', 'slope', 'stats'], nq=(2, 4), w=dict(q=3), clear=.8, regrid_after=.6, nops=(4, 7), **SAFE), 24, 300, {}),
                      ('disk', disk(kinds=READS, nq=(3, 5), w=dict(q=3, reload=1), **SAFE), 32, 400, {}),
                      tour(40, 4000, 'GenVR', kinds=ALLQ, nq=(2, 4), tq=.4),
                      ('cube', mem(cube=1, kinds=READS, nq=(3, 6), w=dict(q=4), **SAFE), 60, 900, {})]),
    'C30': dict(clauses=['*/*'], models=['MCFolder'], trace='TraceFolder',
                jobs=[('folder', dict(nops=(6, 11)), 150, 3000, {'folder': True}),
                      ('over', dict(nops=(3, 6), pattern=True), 150, 3000, {'folder': True}),
                      ('many', dict(nops=(14, 20)), 40, 1000, {'folder': True}),
                      ('tfolder', dict(nops=(6, 11)), 150, 4000, {'folder': True, 'tour': 'GenFolder', 'deep': 6, 'len': 10})]),
    'C29': dict(clauses=['*/plots.*', '*/exc.plots', '*/rep.plots', '*/exc.q'], models=['MCBathy'],
                jobs=[('mem', mem(kinds=['plots'], nq=(1, 2), nops=(4, 7), w=dict(q=2), keepres=.4, spread=1, utm=.1), 60, 1500, {}),
                      ('mixed', mem(kinds=['plots'], nq=(1, 2), nops=(5, 8), w=dict(q=2), keepres=.1, clear=.1, auto=.3, spread=1), 30, 600, {}),
                      ('disk', disk(kinds=['plots'], nq=(1, 2), w=dict(q=2, reload=2), spread=0), 10, 200, {'reload_alt': False}),
                      ('cube', mem(cube=1, kinds=['plots'], nq=(1, 2), nops=(4, 7), w=dict(q=2), keepres=.4, spread=1, utm=.1), 14, 300, {})]),
    'C28': dict(clauses=['*/g.cube.*', '*/g.res', '*/g.kept', '*/lay.names', '*/meta.par', '*/attr.meta', '*/alt_par.*', '*/alt_reload.layers', '*/alt_reload.meta', '*/alt_reload.fails', '*/exc.grid', '*/exc.add', '*/exc.remove', '*/exc.reload',
                         '*/obs.unreadable', '*/layer.*', '*/exc.layer', '*/cont.*', '*/exc.cont', '*/exc.q', 'grid*/reject.grid'], models=['MCBathy'],
                jobs=[('mem', mem(cube=1, kinds=['layer', 'attr'], nq=(1, 2), w=dict(q=.5, add=5, remove=2, grid=4), spread=1, auto=.15, npts=(2, 20)), 450, 7000, {}),
                      ('near', mem(cube=1, kinds=['cont'], nq=(1, 2), w=dict(q=.5, add=5, remove=2, grid=4), spread=1, auto=0, npts=(10, 40), nops=(4, 7), edge=.7, clear=.8, regrid_after=.5), 150, 2500, {}),
                      ('dask', mem(cube=1, kinds=['layer'], nq=(1, 1), w=dict(q=.3, add=4, remove=1, grid=4), nops=(4, 6), twins='dask', npts=(8, 30), spread=1, edge=.6,
                                   sr_sizes=[(256, 256, [4, 8, 16]), (512, 512, [8, 16, 32]), (64, 64, [4, 16])], vr_sizes=[(256, 128, [4, 8, 16]), (256, 64, [4, 16])]), 24, 300, {'dask': 'threads'}),
                      ('disk', disk(cube=1, kinds=['layer'], nq=(1, 1), w=dict(add=4, remove=2, grid=4, reload=2, q=.5), edge=.5), 24, 400, {}),
                      tour(40, 3000, 'GenVR', cube=1)]),
    # two histories in one process; every clause of the contract, for the grid of the first one
    'C31': dict(clauses=['*'], models=['MCOwn', 'MCBathy'],
                jobs=[('mem', mem(kinds=SRQ + ['stats', 'cont', 'attr', 'misc'], nq=(1, 2), w=dict(q=1.5), spread=1, auto=.15, nops=(4, 7)), 300, 4000, {'pair': True}),
                      ('vr', mem(vr=1.0, kinds=['attr', 'layer', 'nb', 'slope'], nq=(1, 2), w=dict(q=1), spread=1, auto=.15, nops=(4, 7)), 100, 1500, {'pair': True}),
                      ('cube', mem(cube=1, kinds=['attr', 'layer'], nq=(1, 1), w=dict(q=1), spread=1, nops=(4, 6)), 60, 900, {'pair': True}),
                      ('disk', disk(kinds=['attr', 'csv'], nq=(1, 1), w=dict(q=1, reload=1, saveload=1), spread=0), 24, 400, {'pair': True}),
                      ('dask', mem(kinds=['layer'], nq=(1, 1), w=dict(q=.3, add=4, remove=1, grid=4), nops=(4, 6), npts=(8, 30), spread=1, twins='dask'), 18, 200, {'pair': True, 'dask': 'threads'})]),
}
