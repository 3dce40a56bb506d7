"""Exhaustive TLC runs of the models (spec/MC*.cfg)."""
import re
import time
import tlc

# name -> (module, configurations of the quick tier, of the thorough tier (with MaxOps there), time limit of one run in each tier)
MODELS = {
    'MCBathy': ('MCBathy', [('MCBathySR', 4), ('MCBathyVR', 4), ('MCBathyVRCube', 4)], [('MCBathySR', 6), ('MCBathyVR', 6), ('MCBathySRCube', 6), ('MCBathyVRCube', 6)], 300, 1500),
    'MCMech': ('MCMech', [('MCMechSRDisk', 5), ('MCMechVRMem', 5)],
               [('MCMechSRMem', 100), ('MCMechVRMem', 100), ('MCMechSRDisk', 100), ('MCMechVRDisk', 100), ('MCMechSRAlg', 9), ('MCMechVRAlg', 8)], 300, 1800),
    'MCFolder': ('MCFolder', [('MCFolder', None)], [('MCFolder', None), ('MCFolderBig', None)], 300, 1500),
    'MCOwn': ('MCOwn', [('MCOwn', 6)], [('MCOwnBig', None)], 300, 1500),
    'MCSurf': ('MCSurf', [('MCSurf', None), ('MCSurfDense', None)], [('MCSurf', None), ('MCSurfDense', None), ('MCSurfSquare', None)], 300, 1500),
    'MCGrow': ('MCGrow', [('MCGrow', 2)], [('MCGrow', 3)], 300, 1500),
    'MCPar': ('MCPar', [('MCPar', None)], [('MCPar', None), ('MCParBig', None)], 300, 1500),
    'MCChunk': ('MCChunk', [('MCChunkSmall', None)], [('MCChunk', None), ('MCChunkWide', None)], 300, 1500),
    'MCNb': ('MCNb', [('MCNb', None)], [('MCNb', None), ('MCNbBig', None)], 300, 1500),
}


def run_model(args):
    name, tier, scratch = args
    mod, q, t, lq, lt = MODELS[name]
    t0 = time.time()
    ok, states, trans, depth, output, cfgs = True, 0, 0, 0, '', []
    for cfg, maxops in q if tier == 'quick' else t:
        rc, out, gen, dis, d = tlc.run(mod, cfg=cfg + '.cfg', scratch=scratch, timeout=lq if tier == 'quick' else lt, workers=2 if tier == 'quick' else 4,
                                       mem='2g' if tier == 'quick' else '6g', maxops=maxops)
        states, trans, depth = states + dis, trans + gen, max(depth, d)
        cfgs.append({'configuration': cfg, 'max_operations': maxops, 'distinct_states': dis, 'transitions': gen, 'depth': d, 'complete': bool(re.search('No error has been found', out))})
        if rc:
            ok, output = False, output + out
    return dict(name=name, ok=ok, states=states, transitions=trans, depth=depth, wall_s=round(time.time() - t0, 1), output=output, configurations=cfgs)
