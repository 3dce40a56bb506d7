"""The models (spec/*.cfg) carry a constant BUG that plants one mistake in the modelled mechanism: TLC has to find every one of them.
A model that cannot tell its own mistakes apart from the mechanism as it is would prove nothing.

harness/selftest.py [model ...]"""
import concurrent.futures
import os
import re
import sys
import tempfile
import tlc

# mechanism model -> the configurations in which its mistakes are looked for, and the mistakes
PLANTED = {
    'MCMech': (['MCMechSRMem', 'MCMechSRDisk', 'MCMechVRMem', 'MCMechVRDisk', 'MCMechSRAlg', 'MCMechVRAlg'],
               ['index_not_extended', 'flag_not_set_on_add', 'no_shift', 'shift_strict', 'shift_all', 'index_not_masked', 'flag_not_set_on_remove', 'clear_keeps_layers', 'layer_not_reset',
                'algorithm_kept', 'flag_not_cleared', 'flag_not_stored', 'points_keep_index', 'old_layers_on_disk', 'empty_tile_folder_left', 'resolutions_kept', 'update_keeps_layers',
                'skipped_resolutions_lost', 'clear_carries_over']),
    'MCFolder': (['MCFolderBig'], ['takes_folder_with_a_file', 'create_empties_the_folder', 'opens_the_first_root', 'any_content_is_a_grid', 'removed_tile_stays', 'extents_not_written', 'leftover_tiles',
                                   'holes_not_cleared', 'save_leaves_home', 'save_moves', 'save_clears_folder']),
    'MCOwn': (['MCOwn'], ['keeps_what_it_was_given', 'default_is_shared', 'hands_out_its_own', 'cache_by_name', 'works_in_what_it_was_given', 'copy_shares']),
    'MCSurf': (['MCSurf', 'MCSurfDense'], ['offsets_swapped', 'tile_transposed', 'tile_upside_down', 'last_row_cut', 'last_boundary_missing', 'origin_of_box_forgotten', 'upper_side_open',
                                           'coarse_first', 'outside_ends', 'box_is_answer']),
    'MCGrow': (['MCGrow'], ['truncates', 'origin_ignored', 'upper_not_strict', 'corner_swapped', 'shape_swapped', 'column_order', 'edge_left', 'index_swapped',
                            'maximum_replaced', 'hole_keeps_tile']),
    'MCPar': (['MCPar'], ['clear_carries_over', 'skipped_resolutions_lost', 'holes_not_counted', 'last_batch_lost', 'completion_order', 'not_saved', 'last_resolutions_only', 'places_not_reset']),
    'MCChunk': (['MCChunk'], ['crop_exclusive', 'split_floor', 'split_by_rows', 'corner_of_all', 'corner_of_first', 'lowest_top', 'not_flipped', 'turned_around']),
    'MCNb': (['MCNb'], ['wraps_around', 'last_row_hidden', 'right_is_left', 'sides_swapped', 'strict']),
}


def one(args):
    model, cfg, bug, scratch = args
    txt = open(os.path.join(tlc.SPEC, cfg + '.cfg')).read()
    if 'BUG = ""' not in txt:
        return model, cfg, bug, 'no BUG constant'
    p = os.path.join(scratch, '{}_{}.cfg'.format(cfg, bug or 'none'))
    open(p, 'w').write(txt.replace('BUG = ""', 'BUG = "{}"'.format(bug)))
    rc, out, gen, dis, depth = tlc.run(model, cfg=p, workers=2, mem='3g', timeout=3000, scratch=scratch)
    m = re.search(r'(Invariant \w+|Action property \w+|Temporal properties|property \w+)[^\n]* violated', out)
    if rc == 0:
        return model, cfg, bug, 'nothing found ({} states)'.format(dis)
    if m:
        return model, cfg, bug, 'found: {} violated ({} states)'.format(m.group(1), dis)
    return model, cfg, bug, 'TLC failed: ' + ' '.join(x for x in out.splitlines() if 'rror' in x)[:400]


def main():
    want = sys.argv[1:] or list(PLANTED)
    bad = 0
    with tempfile.TemporaryDirectory(prefix='bgvself_') as scratch:
        jobs = [(m, c, b, scratch) for m in want for b in PLANTED[m][1] for c in PLANTED[m][0]]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, jobs))
    for m in want:
        for b in PLANTED[m][1]:
            r = [(c, v) for mm, c, bb, v in res if mm == m and bb == b]
            hit = any(v.startswith('found') for _, v in r)
            bad += not hit
            print('{} {:28s} {}'.format(m, b, 'FOUND' if hit else 'MISSED'))
            for c, v in r:
                print('      {:14s} {}'.format(c, v))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
