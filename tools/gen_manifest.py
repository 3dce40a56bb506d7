"""Writes MANIFEST.json from properties.jsonl and harness/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import props  # noqa: E402

NOTE = {
    'C28': 'the estimator itself (package bathycube) is not part of the repository and not installed: a stand-in whose answer tells exactly what it was asked takes its place; what the real one computes is not checked',
    'C09': 'every completed operation of every recorded on-disk history is a crash point: the folder is loaded again after it and compared with the live object; exits inside an operation are not covered',
    'C11': 'dask worker threads (1 to 4, random task delays) and worker processes; sampled schedules on the real code, all schedules of the batch model in BathyPar.tla',
}
na = []
checks = []
for ln in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if p not in props.PROPS:
        continue
    checks.append({'property': p, 'quick_cmd': 'harness/check.sh --property {} --tier quick'.format(p), 'thorough_cmd': 'harness/check.sh --property {} --tier thorough'.format(p),
                   'technique': 'TLA+ specification checked with TLC, bound by validating traces of the real code against it (TLC) and replaying histories generated from it',
                   'level': 'model_checking',
                   'level_note': NOTE.get(p, 'exhaustive on the models for small constants; on the code, sampled histories recorded from the public API and validated event by event against the specification')})
json.dump({'version': 1, 'setup_cmd': 'harness/setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
