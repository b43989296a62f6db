"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('TLC decides every recorded outcome of the real code against the '
        'explicit TLA+ specification (spec/Library.tla); inputs are sampled '
        'with a bias to degenerate contacts on grids of 3x3 to 17x17 points, '
        'so the assurance is exploration of inputs with an exact oracle. '
        'Trusted: TLC, the Java evaluators (cross-checked against the pure '
        'definitions), the recording harness.')
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'python3 harness/check.py {p["id"]} --tier quick',
        'thorough_cmd': f'python3 harness/check.py {p["id"]} --tier thorough',
        'technique': 'TLA+ specification, TLC trace validation of recorded '
                     'calls',
        'level': 'model_checking',
        'level_note': NOTE} for p in props],
    'not_applicable': []},
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
